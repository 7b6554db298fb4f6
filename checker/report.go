package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Property is one property and the analysis that decides it.
type Property struct {
	ID  string
	Run func(p *Program, r *Result)
	// Explain says what the analysis establishes.
	Explain string
	// Assume lists what it trusts.
	Assume []string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// Result collects what one check analysed and found.
type Result struct {
	Violations []*Violation
	viol       map[string]bool
	// obligations decided, by rule and construct
	Checked map[string]map[string]bool
	Funcs   map[string]bool
	States  int
	Calls   int
	Events  map[string]int
	Opaque  map[string]bool
	Limit   int
}

func newResult() *Result {
	return &Result{viol: map[string]bool{}, Checked: map[string]map[string]bool{}, Funcs: map[string]bool{}, Events: map[string]int{}, Opaque: map[string]bool{}, Limit: 1500000}
}

// Check counts one obligation and reports it if it does not hold.
func (r *Result) Check(ok bool, rule, construct, pos, msg string) bool {
	if r.Checked[rule] == nil {
		r.Checked[rule] = map[string]bool{}
	}
	r.Checked[rule][construct] = true
	if !ok {
		r.Report(&Violation{Rule: rule, Construct: construct, Pos: pos, Msg: msg})
	}
	return ok
}

func (r *Result) Report(v *Violation) {
	k := v.Rule + "|" + v.Construct + "|" + v.Msg
	if r.viol[k] {
		return
	}
	r.viol[k] = true
	r.Violations = append(r.Violations, v)
}

// Fail reports that something could not be decided.
func (r *Result) Fail(format string, args ...any) {
	r.Report(&Violation{Rule: "undecided", Construct: "analysis", Msg: fmt.Sprintf(format, args...)})
}

// Need fails if fewer than n instances of a rule were found.
func (r *Result) Need(rule string, n int) {
	if got := len(r.Checked[rule]); got < n {
		r.Fail("rule %q applied to %d constructs, expected at least %d", rule, got, n)
	}
}

// Interpret runs an abstract interpretation of fn and collects its findings.
func (r *Result) Interpret(p *Program, spec *Spec, fn *ssa.Function, pre func(m *Machine, st *State, params []*Term)) (*Machine, []Outcome) {
	m := NewMachine(p, spec)
	m.limit = r.Limit
	if d := os.Getenv("DBG"); d != "" && d == fn.Name() {
		defer attachDbg(m)()
	}
	outs := m.Run(fn, func(st *State, params []*Term) {
		if pre != nil {
			pre(m, st, params)
		}
	})
	r.Funcs[calleeName(fn)] = true
	for f := range m.Inlined {
		r.Funcs[calleeName(f)] = true
	}
	r.States += m.Visited
	r.Calls += m.Calls
	for k, n := range m.Events {
		r.Events[k] += n
	}
	for k := range m.Opaque {
		r.Opaque[k] = true
	}
	for rule, cs := range m.Checked {
		if r.Checked[rule] == nil {
			r.Checked[rule] = map[string]bool{}
		}
		for c := range cs {
			r.Checked[rule][c] = true
		}
	}
	for _, k := range m.order {
		r.Report(m.violations[k])
	}
	if m.err != nil {
		r.Fail("%s: %v", calleeName(fn), m.err)
	}
	return m, outs
}

// ---- known findings ----

type knownFinding struct{ prop, key, text string }

// readKnown reads the lines "known: property=ID key=RULE|CONSTRUCT text".
func readKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k knownFinding
		rest := strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		a, b, ok := strings.Cut(rest, " key=\"")
		key, text, ok2 := strings.Cut(b, "\"")
		if !ok || !ok2 || !strings.HasPrefix(a, "property=") {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		k.prop, k.key, k.text = strings.TrimPrefix(a, "property="), key, strings.TrimSpace(text)
		out = append(out, k)
	}
	return out, nil
}

// ---- output ----

const defaultExplain = "The current source was type-checked and turned into SSA; every path of the functions listed was interpreted abstractly " +
	"(helpers of the module inlined, loops run to a fixed point, every storage and serializer call both succeeding and failing), and each rule " +
	"was decided on every path through the constructs listed under it. Anything that could not be resolved or decided is reported as a violation."

var defaultAssume = []string{
	"Go's type checker and golang.org/x/tools/go/ssa represent the source faithfully",
	"the models of library calls in checker/ (Pebble, sort, bytes, sync, context, maps) match the libraries",
	"functions supplied by the user (keys, filters, orders, serializers, callbacks) do what their documentation says",
}

func (pr *Property) run(repo, verif, tier string, seed int, start time.Time) int {
	r := newResult()
	if tier == "thorough" {
		r.Limit = 4000000
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("BONDCHECK_PANIC") != "" {
					panic(e)
				}
				r.Fail("panic: %v", e)
			}
		}()
		p, err := Load(repo)
		if err != nil {
			r.Fail("%v", err)
			return
		}
		pr.Run(p, r)
	}()
	known, err := readKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		r.Fail("%v", err)
	}
	var bad []*Violation
	seen := map[string]bool{}
	for _, v := range r.Violations {
		matched := false
		for _, k := range known {
			if k.prop == pr.ID && k.key == v.Rule+"|"+v.Construct {
				matched = true
				if !seen[k.key] {
					seen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", pr.ID, k.text, v.Pos)
				}
			}
		}
		if !matched {
			bad = append(bad, v)
		}
	}
	nObl := 0
	var rules []string
	for rule, cs := range r.Checked {
		nObl += len(cs)
		rules = append(rules, rule)
	}
	sort.Strings(rules)
	ruleCounts := map[string]int{}
	constructs := map[string][]string{}
	for _, rule := range rules {
		ruleCounts[rule] = len(r.Checked[rule])
		var cs []string
		for c := range r.Checked[rule] {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		if len(cs) > 40 {
			cs = append(cs[:40], fmt.Sprintf("… %d more", len(cs)-40))
		}
		constructs[rule] = cs
	}
	if nObl == 0 && len(bad) == 0 {
		v := &Violation{Rule: "undecided", Construct: "analysis", Msg: "no obligation was found"}
		bad = append(bad, v)
	}
	var funcs, opq []string
	for f := range r.Funcs {
		funcs = append(funcs, f)
	}
	for f := range r.Opaque {
		opq = append(opq, f)
	}
	sort.Strings(funcs)
	sort.Strings(opq)
	explain, assume := pr.Explain, pr.Assume
	if explain == "" {
		explain = defaultExplain
	}
	if assume == nil {
		assume = defaultAssume
	}
	cov := map[string]any{
		"explanation":       explain,
		"functions":         len(funcs),
		"function_names":    funcs,
		"obligations":       nObl,
		"obligations_bad":   len(r.Violations),
		"rules":             ruleCounts,
		"constructs":        constructs,
		"abstract_states":   r.States,
		"calls_interpreted": r.Calls,
		"events":            r.Events,
		"opaque_callees":    opq,
	}
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"assumptions": assume,
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", pr.ID+".json"), append(js, '\n'), 0644); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=none\n", pr.ID)
		return 1
	}
	replay := filepath.Join(verif, "evidence", pr.ID+".violation.txt")
	_ = os.Remove(replay)
	if len(bad) == 0 {
		fmt.Printf("%s: held: %d obligations in %d functions (%d abstract states)\n", pr.ID, nObl, len(funcs), r.States)
		return 0
	}
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s: rule %s: %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		if len(v.Trace) > 0 {
			t := v.Trace
			if len(t) > 60 {
				t = t[len(t)-60:]
			}
			fmt.Fprintf(&sb, "    path: %s\n", strings.Join(t, " -> "))
		}
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, replay)
	return 1
}
