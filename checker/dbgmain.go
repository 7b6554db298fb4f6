package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// debugMain interprets one function without any rule (for development).
func debugMain() {
	p, err := Load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	spec := &Spec{TrackLists: true}
	if b := os.Getenv("BOUND"); b != "" {
		set := map[string]bool{}
		for _, x := range strings.Split(b, ",") {
			set[x] = true
		}
		spec.Inline = func(f *ssa.Function) bool { return !set[calleeName(f)] }
	}
	for _, f := range p.AllFuncs() {
		if len(os.Args) > 1 && calleeName(f) != os.Args[1] {
			continue
		}
		if f.Parent() != nil {
			continue
		}
		t0 := time.Now()
		m := NewMachine(p, spec)
		m.limit = 60000
		if os.Getenv("DBG") != "" {
			defer attachDbg(m)()
		}
		outs := m.Run(f, nil)
		if len(os.Args) > 1 || m.err != nil || m.Visited > 2000 {
			fmt.Println(calleeName(f), len(outs), m.Visited, m.Calls, m.err, time.Since(t0))
		}
		if len(os.Args) > 1 {
			for _, o := range outs {
				fmt.Println("  ->", o.res)
				for t, v := range o.st.facts {
					fmt.Println("     ", v, t)
				}
				for _, t := range o.st.user {
					fmt.Println("     ", t)
				}
			}
		}
	}
}

// attachDbg counts the abstract states of each block; the function it returns
// prints what differs between those of the block with the most.
func attachDbg(m *Machine) func() {
	cnt := map[string]int{}
	parts := map[string]map[string]int{}
	m.dbg = func(ctx *Ctx, b *ssa.BasicBlock, st *State, key string) {
		k := fmt.Sprint(ctx.id, " ", b.Parent(), " ", b.Index)
		cnt[k]++
		if parts[k] == nil {
			parts[k] = map[string]int{}
		}
		for e, v := range st.env {
			parts[k]["env "+fmt.Sprint(e.ctx.id)+" "+e.v.Name()+"="+v.String()]++
		}
		for e, v := range st.heap {
			parts[k]["heap "+e.String()+"="+v.String()]++
		}
		for e, v := range st.facts {
			parts[k]["fact "+fmt.Sprint(v)+e.String()]++
		}
		for _, v := range st.user {
			parts[k]["user "+v.String()]++
		}
		for k2, it := range st.iters {
			parts[k]["iter "+fmt.Sprint(k2.ctx.id, k2.hdr, it.top, it.started, len(it.acc), it.elem)]++
		}
	}
	return func() {
		best := ""
		for k, n := range cnt {
			if n > cnt[best] {
				best = k
			}
		}
		fmt.Println("BEST", best, cnt[best])
		var ks []string
		for k, n := range parts[best] {
			if n < cnt[best] {
				ks = append(ks, fmt.Sprintf("%6d %s", n, k))
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	}
}
