package main

// gocv: a deductive verifier for Go functions against contracts, by symbolic execution of the SSA
// form of /repo's current source and SMT.
//
//	gocv check PROP            verify every clause that belongs to a property
//	gocv contract NAME         verify one contract (for development)
//	gocv list                  list contracts and the properties they serve

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type unitResult struct {
	ct        *Contract
	lemma     bool
	obls      []*Obligation
	reaches   []*Obligation
	err       string
	used      map[string]bool
	inlined   map[string]bool
	contracts map[string]bool
	paths     int
	branchQ   int
	ms        int64
}

var (
	repoDir = flag.String("repo", "/repo", "repository")
	verbose = flag.Bool("v", false, "print every obligation")
	tier    = flag.String("tier", "", "quick or thorough")
	only    = flag.String("only", "", "only obligations whose name contains this")
	dump    = flag.String("dump", "", "write the queries of failing obligations to this directory")
	noHarn  = flag.Bool("noharness", false, "skip the replay harness")
)

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gocv check PROP | contract NAME | list")
		os.Exit(2)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	env, err := loadSpecs(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv:", err)
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		for _, ct := range append(append([]*Contract(nil), env.order...), env.lemmas...) {
			fmt.Println(ct.name, contractProps(ct))
		}
	case "contract":
		P, err := load(*repoDir)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gocv:", err)
			os.Exit(2)
		}
		pool := newPool(runtime.NumCPU())
		defer pool.close()
		bad := 0
		for _, ct := range append(append([]*Contract(nil), env.order...), env.lemmas...) {
			if m, _ := regexp.MatchString(args[1], ct.name); m {
				r := runUnit(P, pool, ct, isLemma(env, ct), "")
				bad += report(r)
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "harness":
		h := runHarness(args[1], first(os.Getenv("VERIF_SEED"), "1"), false, nil)
		fmt.Printf("failed=%v input=%s\n%s\n%s\n", h.failed, h.input, h.summary(), tailOf(h.output, 3000))
	case "check":
		os.Exit(check(env, args[1]))
	default:
		os.Exit(2)
	}
}

func isLemma(env *SpecEnv, ct *Contract) bool {
	for _, l := range env.lemmas {
		if l == ct {
			return true
		}
	}
	return false
}

func contractProps(ct *Contract) []string {
	m := map[string]bool{}
	for _, cl := range ct.clauses {
		for _, p := range cl.props {
			m[p] = true
		}
	}
	for _, k := range []string{"safety", "serves"} {
		for _, p := range strings.Fields(ct.opts[k]) {
			m[p] = true
		}
	}
	if p := ct.opts["prop"]; p != "" {
		m[p] = true
	}
	var ps []string
	for p := range m {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}
func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

// runUnit generates and discharges the obligations of one contract. prop filters them.
func runUnit(P *Prog, pool *solverPool, ct *Contract, lemma bool, prop string) (r *unitResult) {
	t0 := time.Now()
	r = &unitResult{ct: ct, lemma: lemma}
	x := newExec(P, newCtx(), pool)
	defer func() {
		r.ms = time.Since(t0).Milliseconds()
		r.used, r.inlined, r.contracts = x.used, x.inlined, x.contracts
		r.paths, r.branchQ = x.paths, x.branchQ
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch u := e.(type) {
				case unsupportedErr:
					r.err = u.msg
				default:
					if os.Getenv("GOCV_PANIC") != "" {
						panic(e)
					}
					r.err = fmt.Sprintf("internal error of the verifier: %v", e)
				}
			}
		}()
		if lemma {
			x.lemma(ct)
			return
		}
		fn := P.lookup(ct.target())
		if fn == nil {
			r.err = "function " + ct.name + " not found in the source"
			return
		}
		x.verify(ct, fn)
		if *verbose {
			for _, cl := range ct.clauses {
				if cl.kind == "at" && x.atSeen[cl.name] == 0 {
					fmt.Printf("    note: %s is never called by %s\n", cl.name, ct.name)
				}
			}
		}
	}()
	for _, o := range x.obls {
		if prop != "" && !hasProp(o.Prop, prop) {
			continue
		}
		if *only != "" && !strings.Contains(o.Name, *only) {
			continue
		}
		r.obls = append(r.obls, o)
	}
	x.discharge(r.obls)
	if r.err == "" {
		r.reaches = x.reaches
		x.vacuity(r)
	}
	return r
}

func (x *Exec) render(q *query) (s string, err error) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupportedErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(e)
		}
	}()
	x.c.bounds = nil
	x.c.its = nil
	return q.render(), nil
}

// discharge decides the obligations: rendering is sequential, solving parallel.
func (x *Exec) discharge(obls []*Obligation) {
	quickMs, fullMs := 6000, 40000
	if *tier == "thorough" {
		quickMs, fullMs = 10000, 60000
	}
	var wg sync.WaitGroup
	var mu sync.Mutex // guards the term context
	sem := make(chan bool, runtime.NumCPU())
	for _, o := range obls {
		if o.Status == "proved" {
			continue
		}
		o := o
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			t0 := time.Now()
			defer func() { o.ms = float64(time.Since(t0).Microseconds()) / 1000 }()
			if o.goal.isFalse() {
				// the path itself must be infeasible
			}
			mu.Lock()
			var plain, all, quants []*Term
			goalQ := hasForall(x.c, o.goal)
			quant := goalQ
			for _, a := range o.pc {
				if hasForall(x.c, a) {
					quant = true
					quants = append(quants, a)
				} else {
					plain = append(plain, a)
				}
			}
			all = o.pc
			cone := x.cone(plain, []*Term{o.goal})
			if o.goal.isFalse() {
				cone = plain
			}
			t1, e1 := x.render(&query{c: x.c, assume: cone, goal: o.goal})
			mu.Unlock()
			if e1 != nil {
				o.Status, o.Model = "unknown", e1.Error()
				return
			}
			r := x.pool.check(t1, quickMs)
			if r.status == "unsat" {
				o.Status, o.Backend = "proved", r.backend
				return
			}
			if len(quants) > 0 && !goalQ {
				mu.Lock()
				cq := x.cone(all, []*Term{o.goal})
				if o.goal.isFalse() {
					cq = all
				}
				var pl []*Term
				for _, a := range cq {
					if !hasForall(x.c, a) {
						pl = append(pl, a)
					}
				}
				t, e := x.render(&query{c: x.c, assume: pl, goal: o.goal, inst: quants})
				mu.Unlock()
				if e == nil {
					if *dump != "" {
						os.MkdirAll(*dump, 0o755)
						os.WriteFile(filepath.Join(*dump, sanitize(fmt.Sprintf("%s_%s_%p", o.Target, o.Name, o))+".inst.smt2"), []byte(t), 0o644)
					}
					if r := x.pool.check(t, quickMs); r.status == "unsat" {
						o.Status, o.Backend = "proved", r.backend
						return
					}
				}
			}
			mu.Lock()
			as := all
			if quant {
				cq := x.cone(all, []*Term{o.goal})
				if o.goal.isFalse() {
					cq = all
				}
				as = cq
			}
			t2, e2 := x.render(&query{c: x.c, assume: as, goal: o.goal, wanted: o.wanted})
			mu.Unlock()
			if e2 != nil {
				o.Status, o.Model = "unknown", e2.Error()
				return
			}
			if *dump != "" {
				os.MkdirAll(*dump, 0o755)
				os.WriteFile(filepath.Join(*dump, sanitize(fmt.Sprintf("%s_%s_%p", o.Target, o.Name, o))+".smt2"), []byte(t2), 0o644)
			}
			r2 := x.pool.check(t2, fullMs)
			if r2.status == "unknown" {
				s := x.pool.second(t2, fullMs)
				if s.status != "unknown" {
					r2 = s
				}
			}
			if r2.status != "unsat" && x.bySplit(o, &mu, fullMs) {
				o.Status, o.Backend = "proved", r2.backend+"+cases"
				return
			}
			switch r2.status {
			case "unsat":
				o.Status, o.Backend = "proved", r2.backend
			case "sat":
				o.Status, o.Backend, o.Model = "failed", r2.backend, r2.model
			default:
				o.Status, o.Backend, o.Model = "unknown", r2.backend, r2.model
			}
		}()
	}
	wg.Wait()
}

// bySplit proves a goal with non-linear terms over variables of small range case by case.
func (x *Exec) bySplit(o *Obligation, mu *sync.Mutex, ms int) bool {
	mu.Lock()
	st := newState()
	for _, a := range o.pc {
		x.learn(st, a)
	}
	x.c.bounds = nil
	mu.Unlock()
	n := 0
	did := false
	return x.splitCases(o.pc, o.goal, st.bounds, mu, ms, &n, &did) && did
}

func (x *Exec) splitCases(pc []*Term, goal *Term, bm *boundMap, mu *sync.Mutex, ms int, n *int, did *bool) bool {
	c := x.c
	if goal.op == "and" {
		for _, g := range goal.args {
			if !x.splitCases(pc, g, bm, mu, ms, n, did) {
				return false
			}
		}
		return true
	}
	mu.Lock()
	var v *Term
	var lo, hi int64
	seen := map[*Term]bool{}
	var visit func(t *Term, in bool)
	visit = func(t *Term, in bool) {
		if v != nil || seen[t] && !in {
			return
		}
		seen[t] = true
		if in && t.op == "var" && t.sort == SInt {
			b := bm.m[t]
			if b.lo != nil && b.hi != nil && b.lo.IsInt64() && b.hi.IsInt64() && b.hi.Int64()-b.lo.Int64() <= 128 {
				v, lo, hi = t, b.lo.Int64(), b.hi.Int64()
				return
			}
		}
		nl := in || t.op == "mul" || (t.op == "div" || t.op == "mod") && !t.args[1].isInt()
		for _, a := range t.args {
			visit(a, nl)
		}
	}
	visit(goal, false)
	mu.Unlock()
	query := func() bool {
		if *n++; *n > 4000 {
			return false
		}
		mu.Lock()
		t, err := x.render(&query{c: c, assume: pc, goal: goal})
		mu.Unlock()
		return err == nil && x.pool.check(t, ms).status == "unsat"
	}
	if v == nil {
		return query()
	}
	*did = true
	for k := lo; k <= hi; k++ {
		mu.Lock()
		g := c.Subst(goal, v, c.Int(k))
		if g.isTrue() {
			mu.Unlock()
			continue
		}
		var as []*Term
		dead := false
		for _, a := range pc {
			b := c.Subst(a, v, c.Int(k))
			if b.isFalse() {
				dead = true
				break
			}
			if !b.isTrue() {
				as = append(as, b)
			}
		}
		mu.Unlock()
		if !dead && !x.splitCases(as, g, bm, mu, ms, n, did) {
			return false
		}
	}
	return true
}

// vacuity: the precondition and at least one complete path must be satisfiable.
func (x *Exec) vacuity(r *unitResult) {
	okPre, okPath, nPath := false, false, 0
	for _, o := range r.reaches {
		isPath := strings.HasPrefix(o.Name, "path")
		if isPath {
			nPath++
			if okPath {
				o.Status = "skipped"
				continue
			}
		}
		var plain []*Term
		for _, a := range o.pc {
			if !hasForall(x.c, a) {
				plain = append(plain, a)
			}
		}
		t, err := x.render(&query{c: x.c, assume: plain})
		if err != nil {
			o.Status = "unknown"
			continue
		}
		s := x.pool.check(t, 8000)
		o.Status = s.status
		if s.status != "unsat" {
			if isPath {
				okPath = true
			} else {
				okPre = true
			}
		}
		// with the quantified facts: must not be refutable
		if len(plain) != len(o.pc) && s.status != "unsat" {
			if t, err := x.render(&query{c: x.c, assume: o.pc}); err == nil {
				if s2 := x.pool.check(t, 3000); s2.status == "unsat" {
					o.Status = "unsat"
					if isPath {
						okPath = false
					} else {
						okPre = false
					}
				}
			}
		}
	}
	if !okPre {
		r.err = "vacuous: the precondition is contradictory"
	} else if nPath > 0 && !okPath {
		r.err = "vacuous: no path through the function is satisfiable"
	}
}

func report(r *unitResult) int {
	bad := 0
	n := 0
	by := map[string]int{}
	shown := map[string]int{}
	for _, o := range r.obls {
		if o.Status == "proved" {
			n++
			by[o.Backend]++
			if *verbose {
				fmt.Printf("    ok   %-8s %6.0fms %v %s %s\n", o.Backend, o.ms, o.Prop, o.Name, o.Pos)
			}
			continue
		}
		bad++
		shown[o.Name]++
		if shown[o.Name] > 2 && !*verbose {
			continue
		}
		fmt.Printf("    %s %6.0fms %v %s %s  [%s] %s\n", strings.ToUpper(o.Status), o.ms, o.Prop, o.Name, o.Pos, o.Backend, strings.TrimSpace(o.Model))
		if *verbose {
			fmt.Printf("        goal %v\n", o.goal)
			for _, a := range o.pc {
				fmt.Printf("        pc %v\n", a)
			}
		}
	}
	st := "ok"
	if r.err != "" {
		st = "ERROR " + r.err
		bad++
	}
	fmt.Printf("%-60s %d/%d proved %v paths=%d branchq=%d %dms %s\n", r.ct.name, n, len(r.obls), by, r.paths, r.branchQ, r.ms, st)
	return bad
}

// ---------- property check ----------

type finding struct{ prop, obl, text string }

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	re := regexp.MustCompile(`^finding: property=(\S+) obligation="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			fs = append(fs, finding{m[1], m[2], m[3]})
		}
	}
	return fs
}

func check(env *SpecEnv, prop string) int {
	t0 := time.Now()
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	ev := newEvidence(prop, seed)
	type failure struct{ name, detail string }
	var fails []failure
	P, err := load(*repoDir)
	pool := newPool(runtime.NumCPU())
	defer pool.close()
	var results []*unitResult
	if err != nil {
		fails = append(fails, failure{"the source loads", err.Error()})
	} else {
		var cts []*Contract
		for _, ct := range append(append([]*Contract(nil), env.order...), env.lemmas...) {
			if hasProp(contractProps(ct), prop) {
				cts = append(cts, ct)
			}
		}
		if len(cts) == 0 {
			// out of the verifier's reach: the bounded check stands in
			if levelOf(prop) != "other" {
				fmt.Fprintln(os.Stderr, "gocv: no contract serves", prop)
				return 2
			}
			ev.bounded = true
		}
		results = make([]*unitResult, len(cts))
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for i, ct := range cts {
			wg.Add(1)
			go func() {
				sem <- true
				defer func() { <-sem; wg.Done() }()
				results[i] = runUnit(P, pool, ct, isLemma(env, ct), prop)
			}()
		}
		wg.Wait()
		for _, r := range results {
			report(r)
			if r.err != "" {
				fails = append(fails, failure{r.ct.name + ": within the verifier's reach", r.err})
			}
			bad := map[string]bool{}
			for _, o := range r.obls {
				if o.Status != "proved" && !bad[o.Name] {
					bad[o.Name] = true
					fails = append(fails, failure{o.Target + ": " + o.Name, fmt.Sprintf("%s (%s) at %s\nmodel: %s\ngoal: %v", o.Status, o.Backend, o.Pos, o.Model, o.goal)})
				}
			}
			ev.unit(r)
		}
	}
	code := 0
	// known findings
	var open []failure
	for _, f := range fails {
		known := false
		for _, k := range knownFindings() {
			if k.prop == prop && k.obl == f.name {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				ev.known = append(ev.known, k.text)
				known = true
			}
		}
		if !known {
			open = append(open, f)
		}
	}
	// the replay search on the real code
	var hr *harnessResult
	if !*noHarn {
		hr = runHarness(prop, seed, len(open) > 0, modelInts(results))
		ev.harness = hr
	}
	outDir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(outDir, 0o755)
	path := filepath.Join(outDir, prop+".txt")
	var b strings.Builder
	for _, f := range open {
		fmt.Fprintf(&b, "FAILED OBLIGATION %s\n%s\n\n", f.name, f.detail)
		fmt.Printf("  failed obligation: %s\n", f.name)
	}
	ev.failed = len(open)
	switch {
	case hr != nil && hr.failed:
		fmt.Fprintf(&b, "FAILING INPUT on the real code\n%s\n\nReplay: %s\n\n%s\n", hr.input, hr.cmd, hr.output)
		os.WriteFile(path, []byte(b.String()), 0o644)
		fmt.Printf("  failing input: %s\n", hr.input)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		ev.violations = 1
		code = 1
	case len(open) > 0:
		if hr != nil {
			fmt.Fprintf(&b, "replay search: %s\n%s\n", hr.summary(), hr.output)
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		ev.violations = 1
		code = 1
	default:
		os.Remove(path)
	}
	ev.solverMs = pool.ns.Load() / 1e6
	ev.queries = pool.nq.Load()
	ev.write(time.Since(t0))
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d wall=%.1fs\n", prop, ev.nObl, ev.nProved, time.Since(t0).Seconds())
	}
	return code
}

var intRe = regexp.MustCompile(`\(- (\d+)\)|(\d+)`)

// modelInts collects the numbers of the solvers' counterexamples: hints for the replay search.
func modelInts(rs []*unitResult) []string {
	set := map[string]bool{}
	var out []string
	for _, r := range rs {
		if r == nil {
			continue
		}
		for _, o := range r.obls {
			if o.Status != "failed" {
				continue
			}
			for _, m := range intRe.FindAllStringSubmatch(o.Model, -1) {
				s := m[2]
				if m[1] != "" {
					s = "-" + m[1]
				}
				if len(s) < 21 && !set[s] {
					set[s] = true
					out = append(out, s)
				}
			}
		}
	}
	if len(out) > 64 {
		out = out[:64]
	}
	return out
}

// ---------- evidence ----------

type evidence struct {
	prop, seed        string
	nObl, nProved     int
	failed            int
	by                map[string]int
	fns               []map[string]interface{}
	used, inl, ctr    map[string]bool
	assumes           []string
	violations        int
	known             []string
	harness           *harnessResult
	solverMs, queries int64
	obls              []map[string]interface{}
	reach             int
	bounded           bool
}

func newEvidence(prop, seed string) *evidence {
	return &evidence{prop: prop, seed: seed, by: map[string]int{}, used: map[string]bool{}, inl: map[string]bool{}, ctr: map[string]bool{}}
}
func (e *evidence) unit(r *unitResult) {
	n, pr := 0, 0
	for _, o := range r.obls {
		n++
		if o.Status == "proved" {
			pr++
			e.by[o.Backend]++
		}
		if !strings.HasPrefix(o.Name, "safety") || o.Status != "proved" {
			e.obls = append(e.obls, map[string]interface{}{"contract": o.Target, "obligation": o.Name, "status": o.Status, "backend": o.Backend, "ms": o.ms})
		}
	}
	e.nObl += n
	e.nProved += pr
	for _, q := range r.reaches {
		if q.Status == "sat" {
			e.reach++
		}
	}
	kind := "function"
	if r.lemma {
		kind = "lemma"
	}
	e.fns = append(e.fns, map[string]interface{}{"contract": r.ct.name, "kind": kind, "obligations": n, "discharged": pr, "paths": r.paths + 1, "ms": r.ms, "error": r.err, "at": r.ct.where})
	for k := range r.used {
		e.used[k] = true
	}
	for k := range r.inlined {
		e.inl[k] = true
	}
	for k := range r.contracts {
		e.ctr[k] = true
	}
	for _, cl := range r.ct.clauses {
		if cl.kind == "domain" || cl.kind == "assume" || cl.kind == "invariant" {
			e.assumes = append(e.assumes, fmt.Sprintf("%s: %s %s %s", r.ct.name, cl.kind, cl.label, cl.src))
		}
	}
}
func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func (e *evidence) write(wall time.Duration) {
	ass := append([]string{
		"len, cap and slice offsets are below 2^40 and object counts below 2^48; memory exhaustion is not modelled",
		"each function under contract is verified as one thread of control: the memory it reads changes only through its own actions and its callees' contracts (what the locks protect is stated in DESIGN.md)",
		"termination is not proved",
		"floating point is uninterpreted",
	}, e.assumes...)
	cov := map[string]interface{}{
		"obligations":                e.nObl,
		"discharged":                 e.nProved,
		"by_backend":                 e.by,
		"functions_under_contract":   e.fns,
		"inlined_functions":          keys(e.inl),
		"contracts_used_at_calls":    keys(e.ctr),
		"trusted_base":               append([]string{"gocv (/verif/gocv): SSA construction by golang.org/x/tools/go/ssa, symbolic execution, axiom instantiation", "z3 5.3.2, cvc5 1.1.2, z3 4.8.12"}, keys(e.used)...),
		"checker_cmd":                "bash /verif/check.sh " + e.prop,
		"solver_ms":                  e.solverMs,
		"solver_queries":             e.queries,
		"vacuity_checks_satisfiable": e.reach,
		"machine_integers":           "mathematical integers with explicit wrap-around at the width of the Go type; shifts and masks by axioms",
		"named_obligations":          e.obls,
		"known_findings":             e.known,
	}
	if e.bounded {
		cov["explanation"] = "no function of this property is within the verifier's reach: a bounded check of the real code stands in (see bounded_replay_search and DESIGN.md); nothing is counted as proved"
	}
	if e.harness != nil {
		cov["bounded_replay_search"] = map[string]interface{}{"label": "bounded, not counted as proved", "ran": e.harness.ran, "summary": e.harness.summary(), "failed": e.harness.failed}
	}
	m := map[string]interface{}{
		"property": e.prop, "tier": *tier, "seed": atoiOr(e.seed, 1), "level": levelOf(e.prop),
		"coverage": cov, "assumptions": ass, "wall_s": wall.Seconds(), "violations": e.violations,
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", e.prop+".json"), b, 0o644)
}
func atoiOr(s string, d int) int {
	var n int
	if _, err := fmt.Sscanf(s, "%d", &n); err != nil {
		return d
	}
	return n
}

// levelOf reads the level registered in MANIFEST.json.
func levelOf(prop string) string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return c.Level
				}
			}
		}
	}
	return "proof"
}
