package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34 for what is neither a write nor a read of rows: what fails on the way
// makes the whole fail.

// errorOps are the operations checked. Closing what was only read may fail
// without consequence.
var errorOps = []string{
	"bond.FilterInitialize", "bond.FilterInitializable.Initialize", "bond.FilterInitializable.Save",
	"bond/bloom.BloomFilter.Load", "bond/bloom.BloomFilter.Save", "bond/bloom.BloomFilter.Clear",
	"bond/filters.FilterFSStorer.Get", "bond/filters.FilterFSStorer.Set", "bond/filters.FilterFSStorer.DeleteRange",
	"bond._db.Get", "bond._db.Set", "bond._db.Delete", "bond._db.DeleteRange", "bond._db.Apply", "bond._db.Compact", "bond._db.Close",
	"bond._batch.Get", "bond._batch.Set", "bond._batch.Delete", "bond._batch.DeleteRange", "bond._batch.Apply", "bond._batch.Commit", "bond._batch.Close",
	"bond.SyncBatch.WithSync", "bond.Lazy.Get",
	"bond.Index.OnInsert", "bond.Index.OnUpdate", "bond.Index.OnDelete",
	"bond.SerializerAnyWrapper.Serialize", "bond.SerializerAnyWrapper.Deserialize",
	"bond._iterator.Close",
}

// harmless: a failure of this step need not be told.
func harmless(op, step string) bool {
	switch {
	case step == "iface:io.Closer.Close", strings.HasPrefix(step, "bytes.Buffer."):
		return true
	case step == "iface:bond.Filter.Load": // the filter is built anew
		return strings.HasSuffix(op, "Initialize")
	}
	return false
}

func runErrors(p *Program, r *Result) {
	for _, name := range errorOps {
		fn := r.anchor(p.Find(name))
		if fn == nil {
			continue
		}
		errorsReturned(p, r, fn, func(step string) bool { return harmless(name, step) })
	}
	r.Need("failures-are-returned", 25)
}

// errorsReturned: on no path of fn a call fails and fn reports no error.
func errorsReturned(p *Program, r *Result, fn *ssa.Function, mayFail func(string) bool) {
	c := calleeName(fn)
	opt := PathOpt{ForgetConds: true}
	opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if !hasErr(ev.Sig) || modelled(ev.Name) || mayFail(ev.Name) || ev.Fn != nil && m.P.InModule(ev.Fn) {
			return false, nil
		}
		if strings.HasPrefix(ev.Name, "iface:") && ev.Recv != nil && ev.Recv.K == KIface {
			return false, nil
		}
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		m.havocArgs(st, ev)
		m.havocArgs(bad, ev)
		bo := m.errOutcome(bad, ev, nil)
		bo.st.add(&Tup{Tag: "failed", Data: ev.Name, Pos: ev.Pos})
		return true, []Outcome{m.okOutcome(st, ev), bo}
	}
	for _, q := range r.Paths(p, fn, opt) {
		_, ek := q.Err()
		r.Check(true, "failures-are-returned", c, q.Pos, "")
		for _, t := range q.St.tups("failed") {
			r.PathCheck(q, ek == "err", "failures-are-returned", c, t.Pos, "it reports no error although "+t.Data+" failed")
		}
	}
}
