package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C36: what is put into a context is found in it, a batch is of the kind that
// was asked for, and a synchronised batch is used by one at a time.
const (
	ctxRule  = "context-keeps-its-batch"
	kindRule = "batch-of-the-kind-asked-for"
	syncRule = "one-user-at-a-time"
	errRule  = "iterator-reports-its-failure"
)

func runContexts(p *Program, r *Result) {
	keys := map[string]map[string]bool{} // by what is stored
	for _, kind := range []string{"Batch", "SyncBatch"} {
		keys[kind] = map[string]bool{}
		put, get := r.anchor(p.Find("bond.ContextWith"+kind)), r.anchor(p.Find("bond.ContextRetrieve"+kind))
		if put == nil || get == nil {
			continue
		}
		for _, q := range r.Paths(p, put, PathOpt{}) {
			c := calleeName(put)
			ev := q.Filter("context.WithValue")
			ok := len(ev) == 1 && ev[0].Args[0] == q.Params[0] && unwrap(ev[0].Args[2]) == q.Params[1] && q.Res[0] == ev[0].Res
			if r.PathCheck(q, ok, ctxRule, c, q.Pos, "the context returned does not hold the batch given") {
				keys[kind][ctxKey(ev[0].Args[1])] = true
			}
		}
		for _, q := range r.Paths(p, get, PathOpt{}) {
			c := calleeName(get)
			ev := q.Filter("iface:context.Context.Value")
			if !r.PathCheck(q, len(ev) == 1 && ev[0].Recv == q.Params[0], ctxRule, c, q.Pos, "the context is not asked once for its batch") {
				continue
			}
			k := ctxKey(ev[0].Args[0])
			r.PathCheck(q, keys[kind][k], ctxRule, c, ev[0].Pos, "the batch is looked up under a key it is not stored under")
			v := ev[0].Res
			none, known := q.Nil(v)
			x := unwrap(q.Res[0])
			isNil := x.K == KNil || x.K == KZero
			if known && none {
				r.PathCheck(q, isNil, ctxRule, c, q.Pos, "a batch is returned although the context has none")
			} else {
				r.PathCheck(q, known || !plainAssert(get), ctxRule, c, q.Pos, "it panics for a context without a batch")
				r.PathCheck(q, ofValue(q, x, v), ctxRule, c, q.Pos, "what is returned is not the batch of the context")
			}
		}
		runAsserts(p, r, get)
	}
	for k := range keys["Batch"] {
		r.Check(!keys["SyncBatch"][k], ctxRule, "bond.ContextWithSyncBatch", "", "a batch and a synchronised batch take each other's place in a context")
	}
	r.Need(ctxRule, 4)
}

// plainAssert: the function panics for a value of another type.
func plainAssert(fn *ssa.Function) bool {
	for _, f := range withClosures(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.TypeAssert); ok && !a.CommaOk {
					return true
				}
			}
		}
	}
	return false
}

// ofValue: t is the value v of a context, seen as a batch.
func ofValue(q *PathRec, t, v *Term) bool {
	if t == v {
		return true
	}
	if t.K == KApp && len(t.Args) > 0 && t.Args[0] == v {
		return true
	}
	// a value of another kind is none
	if t.K == KNil || t.K == KZero {
		for f, val := range q.St.facts {
			if !val && f.mentions(v) && !(f.K == KApp && f.Op == "==") {
				return true
			}
		}
	}
	return false
}

// ctxKey is a key of a context: its type counts.
func ctxKey(t *Term) string {
	typ := ""
	if x := unwrap(t); x.Typ != nil {
		typ = types.TypeString(x.Typ, nil)
	}
	return typ + " " + t.String()
}

// runAsserts: a value is taken for what was stored, no less than every batch,
// and one of another type, or none, does not make the call panic.
func runAsserts(p *Program, r *Result, fn *ssa.Function) {
	want := fn.Signature.Results().At(0).Type()
	for _, f := range withClosures(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.TypeAssert); ok {
					r.Check(types.Identical(a.AssertedType, want), ctxRule, calleeName(fn), p.Pos(a.Pos()), "only batches of one type are found in a context")
				}
			}
		}
	}
}

func runBatchKinds(p *Program, r *Result) {
	opt := func() PathOpt {
		return PathOpt{Event: func(name string, _ *ssa.Function) bool { return name == "bond.NumberSequence.Next" }}
	}
	made := func(q *PathRec, c string) (indexed, ok bool) {
		a, b := q.Filter(pebblePkg+".DB.NewIndexedBatch"), q.Filter(pebblePkg+".DB.NewBatch")
		if !r.PathCheck(q, len(a)+len(b) == 1, kindRule, c, q.Pos, "not one batch of the engine is made") {
			return false, false
		}
		ev := append(a, b...)[0]
		o := unwrap(q.Res[0])
		ok = q.field(o, "Batch") == ev.Res && isFieldLoad(ev.Recv, q.Params[0], "pebble")
		r.PathCheck(q, ok, kindRule, c, q.Pos, "the batch is not one of the database")
		id := q.Filter("bond.NumberSequence.Next")
		ok = len(id) == 1
		if ok {
			n := id[0].Res
			if n.K == KTuple {
				n = n.Args[0]
			}
			ok = q.field(o, "id") == n
		}
		r.PathCheck(q, ok, kindRule, c, q.Pos, "the batch has no number of its own")
		return len(a) == 1, true
	}
	if fn := r.anchor(p.Find("bond._db.Batch")); fn != nil {
		for _, q := range r.Paths(p, fn, opt()) {
			tt := q.M.TT
			indexed, ok := made(q, "bond._db.Batch")
			if !ok {
				continue
			}
			writeOnly := q.Is(tt.Eq(q.Params[1], tt.Int(0)), true)
			if indexed {
				r.PathCheck(q, !writeOnly, kindRule, "bond._db.Batch", q.Pos, "a batch that is written only is made readable")
			} else {
				r.PathCheck(q, writeOnly, kindRule, "bond._db.Batch", q.Pos, "a batch that is also read may be made write-only")
			}
		}
	}
	if fn := r.anchor(p.Find("bond._db.BatchReadWrite")); fn != nil {
		for _, q := range r.Paths(p, fn, opt()) {
			if indexed, ok := made(q, "bond._db.BatchReadWrite"); ok {
				r.PathCheck(q, indexed, kindRule, "bond._db.BatchReadWrite", q.Pos, "a batch that is also read is made write-only")
			}
		}
	}
	if fn := r.anchor(p.Find("bond._batch.Type")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			ev := q.Filter(pebblePkg + ".Batch.Indexed")
			ok := len(ev) == 1 && isFieldLoad(ev[0].Recv, q.Params[0], "Batch")
			if ok {
				ok = q.Is(ev[0].Res, true) && q.Res[0].isInt(1) || q.Is(ev[0].Res, false) && q.Res[0].isInt(0)
			}
			r.PathCheck(q, ok, kindRule, "bond._batch.Type", q.Pos, "the type is not that of the engine's batch")
		}
	}
	if fn := r.anchor(p.Find("bond._batch.ID")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			r.PathCheck(q, isFieldLoad(q.Res[0], q.Params[0], "id"), kindRule, "bond._batch.ID", q.Pos, "it is not the batch's number")
		}
	}
	r.Need(kindRule, 4)
	if p.constInt("BatchTypeWriteOnly") != 0 || p.constInt("BatchTypeReadWrite") != 1 {
		r.Fail("the types of batches are others than 0 and 1")
	}
}

func runSyncBatch(p *Program, r *Result) {
	if fn := r.anchor(p.Find("bond.NewSyncBatch")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			r.PathCheck(q, q.field(q.Res[0], "batch") == q.Params[0], syncRule, "bond.NewSyncBatch", q.Pos, "it is not the batch given that is used")
		}
	}
	fn := r.anchor(p.Find("bond.SyncBatch.WithSync"))
	if fn == nil {
		return
	}
	c := "bond.SyncBatch.WithSync"
	for _, q := range r.Paths(p, fn, PathOpt{}) {
		held, used, ok := 0, 0, true
		var res *Term
		for _, e := range q.Evs {
			switch {
			case e.Name == "sync.Mutex.Lock" || e.Name == "sync.RWMutex.Lock":
				held++
			case e.Name == "sync.Mutex.Unlock" || e.Name == "sync.RWMutex.Unlock":
				held--
			case e.Name == "dynamic" && e.Recv == q.Params[1]:
				used++
				ok = ok && held == 1 && isFieldLoad(e.Args[0], q.Params[0], "batch")
				res = e.Res
			}
		}
		r.PathCheck(q, used == 1 && ok, syncRule, c, q.Pos, "the function is not called once, with the batch, under the lock")
		r.PathCheck(q, held == 0, syncRule, c, q.Pos, "the lock is not released")
		r.PathCheck(q, res != nil && sameErr(q, q.Res[0], res), syncRule, c, q.Pos, "what the function returned is not returned")
	}
	r.Need(syncRule, 2)
}

// runErrIterator: an iterator that could not be opened has no rows and reports
// why, when it is asked and when it is closed.
func runErrIterator(p *Program, r *Result) {
	n, err := p.Named("", "errIterator")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	for _, name := range []string{"First", "Last", "Prev", "Next", "Valid", "SeekGE", "SeekPrefixGE", "SeekLT", "Error", "Close"} {
		fn := r.anchor(p.Method(n, name))
		if fn == nil {
			continue
		}
		c := calleeName(fn)
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			if name == "Error" || name == "Close" {
				r.PathCheck(q, sameErr(q, q.Res[0], q.field(q.Params[0], "err")), errRule, c, q.Pos, "it does not report why the iterator could not be opened")
			} else {
				r.PathCheck(q, q.Res[0] == q.M.TT.False, errRule, c, q.Pos, "an iterator that could not be opened has a row")
			}
		}
	}
	r.Need(errRule, 10)
}

func init() {
	register(&Property{ID: "C36", Run: func(p *Program, r *Result) {
		runContexts(p, r)
		runBatchKinds(p, r)
		runSyncBatch(p, r)
		runErrIterator(p, r)
	}})
}
