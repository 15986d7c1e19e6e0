package main

// Forward symbolic execution of SSA, path by path, in continuation-passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Obligation struct {
	Prop    []string
	Target  string
	Name    string
	Pos     string
	pc      []*Term
	goal    *Term
	wanted  []*Term
	wnames  []string
	Status  string // proved, failed, unknown
	Backend string
	Model   string
	ms      float64
}

type unsupportedErr struct{ msg string }
type pathLimit struct{}

type Exec struct {
	P *Prog

	before func(st *State, name string) // what other goroutines may do before a call
	c      *Ctx
	pool   *solverPool

	obls       []*Obligation
	dry        int
	noFacts    bool
	cur        *State
	funcTab    map[int64]*VFunc
	tagType    map[int64]types.Type
	nextCell   int
	target     string
	safety     []string // properties that own the safety obligations of this target
	paths      int
	maxPaths   int
	scalarFns  map[*ssa.Function]bool
	depth      int
	fnStack    []string
	growing    map[*Term]bool // backings grown by append inside a loop
	lazyNil    map[*Term]bool // backings standing for a slice that was nil before a loop
	enums      []*enum
	merging    bool
	sinks      []*[]arrival
	pdoms      map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	inverse    map[string]string // function or array name -> name of its inverse
	nfilter    int
	filters    map[string]*filter
	loopDry    int
	inSpec     int
	pre        *State
	reaches    []*Obligation
	lastEnum   *enum
	freshRefs  map[*Term]bool
	peek       *peekInfo
	loopsOf    map[*ssa.Function]*loopTable
	spec       *SpecEnv
	used       map[string]bool // trusted models used
	inlined    map[string]bool
	contracts  map[string]bool // contracts used at call sites
	hooks      hooks
	wanted     map[string]*Term
	branchQ    int
	mapIter    int
	callbacks  bool            // function values given by the caller may be called
	opaque     map[string]bool // heap components known in a loop through the kept clauses only
	anys       map[string]Val  // the arbitrary values the contract speaks about
	iter       *Term
	keeps      []keep // clauses every loop keeps
	loopNum    int    // which loop of the function, in source order
	entry      *State // the state at the loop's entry
	globalInit map[string]ssa.Value
	guard      func(st *State, key string, idx []*Term, write bool)
	onLock     func(st *State, key string, idx []*Term, acquire bool)
	allowPanic bool
	interfere  bool // other goroutines act while a batch is being written
	tracksKeys bool
	spawnRuns  bool
	atSeen     map[string]int
	exits      bool // the contract allows the process to be ended
	shared     map[string]bool // words other goroutines add to at any moment
	touching   bool
	openCall   func(st *State, name string, results *types.Tuple, k func(*State, []Val)) bool
}

type hooks struct {
	call func(st *State, name string, args []Val, k func(*State, []Val)) bool
}

type peekInfo struct {
	blk *ssa.BasicBlock
	fr  *ssa.Function
	res *bool
	got bool
}

func newExec(P *Prog, c *Ctx, pool *solverPool) *Exec {
	return &Exec{P: P, c: c, pool: pool, funcTab: map[int64]*VFunc{}, tagType: map[int64]types.Type{},
		growing: map[*Term]bool{}, inverse: map[string]string{}, filters: map[string]*filter{}, lazyNil: map[*Term]bool{}, freshRefs: map[*Term]bool{}, loopsOf: map[*ssa.Function]*loopTable{},
		atSeen: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{}, contracts: map[string]bool{}, wanted: map[string]*Term{}, maxPaths: 6000, scalarFns: map[*ssa.Function]bool{}}
}

func (x *Exec) unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...) + x.where()})
}
func (x *Exec) where() string {
	if len(x.fnStack) > 0 {
		return " (in " + x.fnStack[len(x.fnStack)-1] + ")"
	}
	return ""
}

func (x *Exec) use(st *State) {
	x.cur = st
	x.c.bounds, x.c.fresh, x.c.its = st.bounds, st.fresh, st.its
}

func newState() *State {
	return &State{pcset: map[*Term]bool{}, heap: map[string]*Term{}, cells: map[int]Val{}, bounds: &boundMap{map[*Term]itv{}}, fresh: map[string]int{}}
}

// ---------- assumptions ----------

func (x *Exec) assume(st *State, t *Term, branch bool) {
	x.use(st)
	if t.isTrue() || st.dead {
		return
	}
	if t.isFalse() {
		st.dead = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a, branch)
		}
		return
	}
	if st.pcset[t] {
		return
	}
	if st.pcset[x.c.Not(t)] {
		st.dead = true
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, pcEntry{t, branch})
	x.learn(st, t)
	if branch {
		x.propagate(st)
	}
}

// propagate drops refuted disjuncts of the known disjunctions.
func (x *Exec) propagate(st *State) {
	c := x.c
	for i := 0; i < len(st.pc) && !st.dead; i++ {
		t := st.pc[i].t
		if t.op != "or" || t.hasB {
			continue
		}
		var live []*Term
		sat := false
		for _, d := range t.args {
			switch x.status(st, d) {
			case 1:
				sat = true
			case 0:
				live = append(live, d)
			}
		}
		if sat || len(live) == len(t.args) {
			continue
		}
		if len(live) == 0 {
			st.dead = true
			return
		}
		x.assume(st, c.Or(live...), false)
	}
}

// status evaluates a condition under the known facts: 1 true, -1 false, 0 open.
func (x *Exec) status(st *State, d *Term) int {
	c := x.c
	if st.pcset[d] {
		return 1
	}
	if st.pcset[c.Not(d)] {
		return -1
	}
	r := d
	switch d.op {
	case "le":
		if d.args[0].sort == SInt {
			r = c.Le(d.args[0], d.args[1])
		}
	case "eq":
		if d.args[0].sort == SInt {
			r = c.Eq(d.args[0], d.args[1])
		}
	case "not":
		return -x.status(st, d.args[0])
	case "and":
		all := 1
		for _, a := range d.args {
			s := x.status(st, a)
			if s < 0 {
				return -1
			}
			if s == 0 {
				all = 0
			}
		}
		return all
	case "or":
		any := -1
		for _, a := range d.args {
			s := x.status(st, a)
			if s > 0 {
				return 1
			}
			if s == 0 {
				any = 0
			}
		}
		return any
	}
	if r.isTrue() {
		return 1
	}
	if r.isFalse() {
		return -1
	}
	return 0
}

// learn records interval facts implied by t.
func (x *Exec) learn(st *State, t *Term) {
	c := x.c
	if t.hasB {
		return
	}
	one := func(d *Term, isEq bool) { // d <= 0, or d == 0
		f := c.toLin(d)
		k := f.k
		if len(f.m) == 1 {
			for v, co := range f.m {
				nk := new(big.Int).Neg(k)
				q := new(big.Int)
				if co.Sign() > 0 || isEq { // v <= floor(-k/co)
					if co.Sign() > 0 {
						st.bounds.setHi(v, fdiv(nk, co))
					}
				}
				if co.Sign() < 0 || isEq {
					// co*v <= -k with co<0  =>  v >= ceil(-k/co)
					if co.Sign() < 0 {
						nc := new(big.Int).Neg(co)
						// v >= ceil(k / nc)
						q.Add(k, new(big.Int).Sub(nc, bigOne))
						st.bounds.setLo(v, fdiv(q, nc))
					}
				}
				if isEq && co.CmpAbs(bigOne) == 0 {
					val := new(big.Int).Mul(nk, co)
					st.bounds.setLo(v, val)
					st.bounds.setHi(v, val)
				}
			}
			return
		}
		if len(f.m) == 2 { // interval propagation to a variable
			ob := c.bounds
			c.bounds = st.bounds
			for v, co := range f.m {
				if v.op != "var" || co.CmpAbs(bigOne) != 0 {
					continue
				}
				rest := c.Sub(d, c.Scale(v, co)) // co*v <= -rest
				if b := c.bnd(rest); b.lo != nil && co.Sign() > 0 {
					st.bounds.setHi(v, new(big.Int).Neg(b.lo))
				} else if b.lo != nil && co.Sign() < 0 {
					st.bounds.setLo(v, b.lo)
				}
			}
			c.bounds = ob
		}
		base := c.Sub(d, c.BigInt(k))
		nk := new(big.Int).Neg(k)
		st.bounds.setHi(base, nk)
		if isEq {
			st.bounds.setLo(base, nk)
		}
	}
	switch t.op {
	case "le":
		if t.args[0].sort == SInt {
			one(c.Sub(t.args[0], t.args[1]), false)
		}
	case "eq":
		if t.args[0].sort == SInt {
			one(c.Sub(t.args[0], t.args[1]), true)
			one(c.Sub(t.args[1], t.args[0]), true)
		}
	case "not":
		// x != edge tightens a bound
		e := t.args[0]
		if e.op == "eq" && e.args[0].sort == SInt {
			for i := 0; i < 2; i++ {
				v, k := e.args[i], e.args[1-i]
				if k.isInt() && !v.isInt() {
					b := c.bnd(v)
					if b.lo != nil && b.lo.Cmp(k.n) == 0 {
						st.bounds.setLo(v, new(big.Int).Add(k.n, bigOne))
					}
					if b.hi != nil && b.hi.Cmp(k.n) == 0 {
						st.bounds.setHi(v, new(big.Int).Sub(k.n, bigOne))
					}
				}
			}
		}
	}
}

func (x *Exec) rangeFact(t *Term, kind string) {
	if x.noFacts || t.isInt() || t.hasB || x.cur == nil || t.op == "wrap" {
		return
	}
	if t.op == "ite" || t.op == "lin" {
		b := x.c.bnd(t)
		if b.lo != nil && b.hi != nil {
			return
		}
	}
	lo, hi, _ := wrapRange(kind)
	x.factRange(t, lo, hi)
}
func (x *Exec) factRange(t *Term, lo, hi *big.Int) {
	if x.noFacts || t.isInt() || t.hasB || x.cur == nil {
		return
	}
	b := x.c.bnd(t)
	if lo != nil && (b.lo == nil || b.lo.Cmp(lo) < 0) {
		x.assume(x.cur, x.c.leRaw(x.c.Sub(x.c.BigInt(lo), t)), false)
	}
	if hi != nil && (b.hi == nil || b.hi.Cmp(hi) > 0) {
		x.assume(x.cur, x.c.leRaw(x.c.Sub(t, x.c.BigInt(hi))), false)
	}
}

var maxLen = big.NewInt(1 << 40)

func (x *Exec) sliceFacts(s *VSlice) {
	if x.noFacts || x.cur == nil {
		return
	}
	z := big.NewInt(0)
	x.factRange(s.len, z, maxLen)
	x.factRange(s.off, z, maxLen)
	x.factRange(s.arr, z, nil)
	x.factRange(s.cap, z, maxLen)
	if !s.len.isInt() && !s.len.hasB {
		x.assume(x.cur, x.c.Le(s.len, s.cap), false)
		// a slice without backing is empty
		x.assume(x.cur, x.c.Imp(x.c.Eq(s.arr, x.c.Int(0)), x.c.Eq(s.cap, x.c.Int(0))), false)
	}
}

func (x *Exec) pcTerms(st *State) []*Term {
	ts := make([]*Term, len(st.pc))
	for i, e := range st.pc {
		ts[i] = e.t
	}
	return ts
}

// feasible asks whether the path condition plus t is satisfiable (quantified facts left out).
func (x *Exec) feasible(st *State, t *Term) bool {
	if t.isFalse() || st.dead {
		return false
	}
	var as []*Term
	for _, e := range st.pc {
		if !hasForall(x.c, e.t) {
			as = append(as, e.t)
		}
	}
	as = x.slice(as, t)
	as = append(as, t)
	q := &query{c: x.c, assume: as}
	x.branchQ++
	r := x.pool.check(q.render(), 1500)
	x.use(st)
	return r.status != "unsat"
}

// slice keeps the assumptions connected to t through shared variables.
func (x *Exec) slice(as []*Term, t *Term) []*Term {
	if len(as) < 12 {
		return as
	}
	return x.cone(as, []*Term{t})
}

type atomSet map[*Term]bool

// atoms collects the variables, heap arrays and uninterpreted symbols of a term.
func (x *Exec) atoms(t *Term) atomSet {
	if s, ok := x.c.atomMemo[t]; ok {
		return s
	}
	s := atomSet{}
	switch t.op {
	case "var":
		s[t] = true
	default:
		for _, a := range t.args {
			for k := range x.atoms(a) {
				s[k] = true
			}
		}
		if t.op == "app" && strings.Contains(t.name, "#") {
			s[x.c.Var("app:"+t.name, SInt)] = true
		}
	}
	x.c.atomMemo[t] = s
	return s
}
func (x *Exec) cone(as []*Term, seed []*Term) []*Term {
	in := atomSet{}
	for _, t := range seed {
		for k := range x.atoms(t) {
			in[k] = true
		}
	}
	keep := make([]bool, len(as))
	for ch := true; ch; {
		ch = false
		for i, a := range as {
			if keep[i] {
				continue
			}
			hit := false
			at := x.atoms(a)
			if len(at) == 0 {
				hit = true
			}
			for k := range at {
				if in[k] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				ch = true
				for k := range at {
					in[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if keep[i] {
			out = append(out, a)
		}
	}
	return out
}

func hasForall(c *Ctx, t *Term) bool {
	if r, ok := c.faMemo[t]; ok {
		return r
	}
	r := t.op == "forall"
	for _, a := range t.args {
		if r {
			break
		}
		r = hasForall(c, a)
	}
	c.faMemo[t] = r
	return r
}

func (x *Exec) decide(st *State, cond *Term) (canT, canF bool) {
	if cond.isTrue() {
		return true, false
	}
	if cond.isFalse() {
		return false, true
	}
	if st.pcset[cond] {
		return true, false
	}
	if st.pcset[x.c.Not(cond)] {
		return false, true
	}
	canT = x.feasible(st, cond)
	if !canT {
		return false, true
	}
	return true, x.feasible(st, x.c.Not(cond))
}

// fork continues on both sides of cond.
func (x *Exec) fork(st *State, cond *Term, yes, no func(*State)) {
	x.use(st)
	ct, cf := x.decide(st, cond)
	if ct && cf {
		x.paths++
		if x.paths > x.maxPaths {
			x.unsupported("more than %d paths", x.maxPaths)
		}
		s2 := st.clone()
		x.assume(st, cond, true)
		if !st.dead {
			x.use(st)
			yes(st)
		}
		x.use(s2)
		x.assume(s2, x.c.Not(cond), true)
		if !s2.dead {
			no(s2)
		}
		return
	}
	if ct {
		x.assume(st, cond, true)
		yes(st)
	} else if cf {
		x.assume(st, x.c.Not(cond), true)
		no(st)
	}
}

// ---------- obligations ----------

func (x *Exec) oblige(st *State, props []string, name string, pos token.Pos, goal *Term) {
	if x.dry > 0 || x.peek != nil {
		return
	}
	o := &Obligation{Prop: props, Target: x.target, Name: name, goal: goal}
	if pos.IsValid() {
		p := x.P.prog.Fset.Position(pos)
		f := p.Filename
		if i := strings.Index(f, "/repo/"); i >= 0 {
			f = f[i+6:]
		}
		o.Pos = fmt.Sprintf("%s:%d", f, p.Line)
	}
	o.pc = x.pcTerms(st)
	if goal.isTrue() || st.pcset[goal] {
		o.Status, o.Backend = "proved", "normaliser"
	}
	for n, t := range x.wanted {
		o.wnames = append(o.wnames, n)
		o.wanted = append(o.wanted, t)
	}
	x.obls = append(x.obls, o)
}
func (x *Exec) safe(st *State, name string, pos token.Pos, goal *Term) {
	if !goal.isTrue() {
		x.oblige(st, x.safety, "safety: "+name, pos, goal)
		x.assume(st, goal, false)
	} else if x.dry == 0 {
		x.oblige(st, x.safety, "safety: "+name, pos, goal)
	}
}

// ---------- heap ----------

func (x *Exec) heapArr(st *State, key string, nidx int, leaf Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	s := leaf
	for i := 0; i < nidx; i++ {
		s = arrSort(SInt, s)
	}
	h := x.c.Var("H."+sanitize(key), s)
	st.heap[key] = h
	return h
}
func (x *Exec) rdHeap(st *State, key string, idx []*Term, leaf Sort) *Term {
	return x.c.SelectN(x.heapArr(st, key, len(idx), leaf), idx)
}
func (x *Exec) wrHeap(st *State, key string, idx []*Term, leaf Sort, v *Term) {
	h := x.heapArr(st, key, len(idx), leaf)
	st.heap[key] = x.c.StoreN(h, idx, v)
}

func (x *Exec) nonNil(st *State, p *VPtr, pos token.Pos) {
	if p.cls == "" || len(p.idx) == 0 || x.inSpec > 0 {
		return
	}
	if len(p.idx) == 1 {
		r := p.idx[0]
		b := x.c.bnd(r)
		if b.lo != nil && b.lo.Sign() > 0 {
			return
		}
		x.safe(st, "nil dereference", pos, x.c.Ne(r, x.c.Int(0)))
	}
}

func (x *Exec) load(st *State, p *VPtr, pos token.Pos) Val {
	x.use(st)
	if p.cls == "" {
		v := st.cells[p.cell]
		for _, i := range p.path {
			v = child(v, i)
		}
		return v
	}
	x.nonNil(st, p, pos)
	if strings.HasPrefix(p.cls, "G:") && len(p.idx) == 0 {
		if v := x.constGlobal(st, p); v != nil {
			return v
		}
		if n := map[string]int64{"G:os.Interrupt": 2, "G:os.Kill": 9}[p.cls]; n > 0 {
			return &VIface{tag: x.c.Int(1 << 28), pay: x.c.Int(n)}
		}
	}
	if p.arrN > 0 {
		et := p.elem.Underlying().(*types.Array).Elem()
		es := make([]Val, p.arrN)
		for i := range es {
			es[i] = x.load(st, &VPtr{cls: p.cls, idx: []*Term{p.idx[0], x.c.Int(int64(i))}, elem: et}, pos)
		}
		return &VArr{et, es}
	}
	return x.decode(p.elem, func(suf string, s Sort) *Term {
		k := p.cls + suf
		if x.guard != nil {
			x.guard(st, k, p.idx, false)
		}
		v := x.rdHeap(st, k, p.idx, s)
		x.refFact(st, p.elem, v)
		return v
	})
}

// constGlobal: the value of a package variable that only its initialiser writes.
func (x *Exec) constGlobal(st *State, p *VPtr) Val {
	if x.globalInit == nil {
		x.globalInit = map[string]ssa.Value{}
		bad := map[string]bool{}
		for f := range ssautil.AllFunctions(x.P.prog) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						n := "G:" + g.String()
						switch w := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if w.Addr == g && w.Val != ssa.Value(g) && strings.HasPrefix(f.Name(), "init") && x.globalInit[n] == nil {
								x.globalInit[n] = w.Val
								continue
							}
						}
						bad[n] = true
					}
				}
			}
		}
		for n := range bad {
			delete(x.globalInit, n)
		}
	}
	switch w := x.globalInit[p.cls].(type) {
	case *ssa.Function:
		return &VFunc{fn: w, sig: w.Signature}
	case *ssa.MakeMap: // made once, never replaced
		v := x.rdHeap(st, p.cls, p.idx, SInt)
		x.refFact(st, p.elem, v)
		x.assume(st, x.c.Ge(v, x.c.Int(1)), false)
		return v
	case *ssa.Call:
		if cal := w.Call.StaticCallee(); cal != nil && (fnName(cal) == "errors.New" || fnName(cal) == "fmt.Errorf") {
			iv := x.decode(p.elem, func(suf string, s Sort) *Term { return x.rdHeap(st, p.cls+suf, p.idx, s) }).(*VIface)
			t, _ := x.ifaceTerms(iv)
			if !t.hasB {
				x.assume(st, x.c.Ge(t, x.c.Int(1<<30)), false)
			}
			return iv
		}
		if cal := w.Call.StaticCallee(); cal != nil && strings.HasPrefix(fnName(cal), "github.com/prometheus/client_golang/prometheus.New") {
			return &VIface{tag: x.c.Int(promTag), pay: x.c.Str(p.cls)} // a metric of its own
		}
	}
	return nil
}

// refFact: references found in the initial heap denote objects that existed at entry.
func (x *Exec) refFact(st *State, t types.Type, v *Term) {
	if x.noFacts || v.op != "select" && v.op != "var" || v.sort != SInt {
		return
	}
	if _, sp := specialLeaves(t); sp {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice: // not interfaces: their payload may be a number
	default:
		return
	}
	base := v
	for base.op == "select" {
		base = base.args[0]
	}
	if base.op == "var" && strings.HasPrefix(base.name, "H.") {
		x.factRange(v, big.NewInt(0), big.NewInt((1<<40)-1))
	}
}

func child(v Val, i int) Val {
	switch v := v.(type) {
	case *VStruct:
		return v.fields[i]
	case *VArr:
		return v.elems[i]
	case VTuple:
		return v[i]
	}
	panic(unsupportedErr{fmt.Sprintf("child of %T", v)})
}
func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch w := v.(type) {
	case *VStruct:
		n := &VStruct{w.typ, append([]Val(nil), w.fields...)}
		n.fields[path[0]] = setPath(n.fields[path[0]], path[1:], nv)
		return n
	case *VArr:
		n := &VArr{w.elem, append([]Val(nil), w.elems...)}
		n.elems[path[0]] = setPath(n.elems[path[0]], path[1:], nv)
		return n
	}
	panic(unsupportedErr{fmt.Sprintf("setPath of %T", v)})
}

func (x *Exec) store(st *State, p *VPtr, v Val, pos token.Pos) {
	x.use(st)
	if p.cls == "" {
		st.cells[p.cell] = setPath(st.cells[p.cell], p.path, v)
		return
	}
	x.nonNil(st, p, pos)
	if p.arrN > 0 {
		et := p.elem.Underlying().(*types.Array).Elem()
		av := v.(*VArr)
		for i := range av.elems {
			x.store(st, &VPtr{cls: p.cls, idx: []*Term{p.idx[0], x.c.Int(int64(i))}, elem: et}, av.elems[i], pos)
		}
		return
	}
	x.encode(p.elem, v, func(suf string, s Sort, t *Term) {
		k := p.cls + suf
		if x.guard != nil {
			x.guard(st, k, p.idx, true)
		}
		x.wrHeap(st, k, p.idx, s, t)
	})
}

func (x *Exec) field(p *VPtr, st *types.Struct, i int) *VPtr {
	f := st.Field(i)
	if p.cls == "" {
		return &VPtr{cell: p.cell, path: append(append([]int(nil), p.path...), i), elem: f.Type()}
	}
	n := &VPtr{cls: p.cls + "." + f.Name(), idx: p.idx, elem: f.Type()}
	return n
}

// newRef allocates an object identity: distinct from every other on this path, and above 2^40.
func (x *Exec) newRef() *Term {
	st := x.cur
	st.nref++
	c := x.c
	var r *Term
	if n := len(st.its); n > 0 {
		base := c.BigInt(new(big.Int).Lsh(big.NewInt(st.nref), 50))
		if n == 1 {
			r = c.Add(base, st.its[0])
		} else {
			o := c.App("inj.alloc", SInt, st.its...)
			x.factRange(o, big.NewInt(0), big.NewInt(1<<48))
			r = c.Add(base, o)
		}
	} else {
		r = c.Int(1<<40 + st.nref)
	}
	x.freshRefs[r] = true
	return r
}

func (x *Exec) newObj(st *State, t types.Type) *VPtr {
	r := x.newRef()
	p := &VPtr{cls: className(t), idx: []*Term{r}, elem: t}
	x.use(st)
	x.factRange(r, big.NewInt(1<<40), nil)
	if a, ok := t.Underlying().(*types.Array); ok {
		if _, sp := specialLeaves(t); !sp {
			x.zeroSlice(st, a.Elem(), r)
			x.wrHeap(st, "$frontier", []*Term{r}, SInt, x.c.Int(a.Len()))
			return &VPtr{cls: "[]" + className(a.Elem()), idx: []*Term{r}, elem: t, arrN: a.Len()}
		}
	}
	x.encode(t, x.zero(t), func(suf string, s Sort, v *Term) { x.wrHeap(st, p.cls+suf, p.idx, s, v) })
	return p
}

// zeroSlice gives backing r zeroed contents.
func (x *Exec) zeroSlice(st *State, elem types.Type, r *Term) {
	cls := "[]" + className(elem)
	x.encode(elem, x.zero(elem), func(suf string, s Sort, v *Term) {
		h := x.heapArr(st, cls+suf, 2, s)
		st.heap[cls+suf] = x.c.Store(h, r, x.c.ConstArr(arrSort(SInt, s), v))
	})
}

func (x *Exec) newCell(st *State, v Val, t types.Type) *VPtr {
	x.nextCell++
	st.cells[x.nextCell] = v
	return &VPtr{cell: x.nextCell, elem: t}
}

// ---------- frames ----------

type deferred struct {
	fn    Val
	args  []Val
	call  *ssa.CallCommon
	model string
}
type frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	ret    func(*State, []Val)
	loops  []*loopCtx
	joins  []join
	unroll map[*ssa.BasicBlock]*unrolling
}

// unrolling counts the iterations of one activation of a loop that were executed one by one.
type unrolling struct {
	id *int
	n  int
}

// restartLoop abandons an unrolling whose condition became undecided.
type restartLoop struct{ id *int }

func (f *frame) clone() *frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	n.joins = f.joins[:len(f.joins):len(f.joins)]
	n.unroll = make(map[*ssa.BasicBlock]*unrolling, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return &n
}

// callFn executes fn inline.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, k func(*State, []Val)) {
	if fn.Blocks == nil {
		x.unsupported("no body for %s", fn)
	}
	name := fnName(fn)
	n := 0
	for _, s := range x.fnStack {
		if s == name {
			n++
		}
	}
	if n > 0 && fn.Parent() == nil || n > 2 {
		x.unsupported("recursion through %s", name)
	}
	x.inlined[name] = true
	stack := x.fnStack
	x.fnStack = append(stack[:len(stack):len(stack)], name)
	fr := &frame{fn: fn, regs: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]*unrolling{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = binds[i]
	}
	inner := x.fnStack
	if len(stack) > 0 && x.scalarFn(fn, 0) {
		x.callMerged(st, fr, stack, k)
		return
	}
	if x.merging && len(stack) > 0 {
		x.mergedReturn(st, fr, stack, k)
		return
	}
	fr.ret = func(s *State, r []Val) {
		x.fnStack = stack
		k(s, r)
		x.fnStack = inner
	}
	x.instrs(st, fr, fn.Blocks[0], 0)
	x.fnStack = stack
}

// scalarFn: a function of numbers to numbers without effects or loops.
func (x *Exec) scalarFn(fn *ssa.Function, d int) bool {
	if v, ok := x.scalarFns[fn]; ok {
		return v
	}
	x.scalarFns[fn] = false
	num := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	if d > 3 || fn.Blocks == nil || len(fn.FreeVars) > 0 || fn.Signature.Results().Len() != 1 || !num(fn.Signature.Results().At(0).Type()) || len(x.loops(fn).body) > 0 {
		return false
	}
	for _, p := range fn.Params {
		if !num(p.Type()) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op == token.MUL || in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f == nil || !x.scalarFn(f, d+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	x.scalarFns[fn] = true
	return true
}

// callMerged explores a scalar function and, when it has many exits, goes on once with the
// results joined by case distinction.
func (x *Exec) callMerged(st *State, fr *frame, stack []string, k func(*State, []Val)) {
	c := x.c
	type exit struct {
		s *State
		r Val
	}
	var exits []exit
	fr.ret = func(s *State, r []Val) { exits = append(exits, exit{s, r[0]}) }
	p0 := x.paths
	x.instrs(st.clone(), fr, fr.fn.Blocks[0], 0)
	x.fnStack = stack
	plain := len(exits) < 4
	for _, e := range exits {
		if _, ok := e.r.(*Term); !ok {
			plain = true
		}
	}
	if plain {
		for _, e := range exits {
			x.use(e.s)
			x.fnStack = stack
			k(e.s, []Val{e.r})
		}
		x.fnStack = stack
		return
	}
	x.paths = p0
	x.use(st)
	var order []*Term
	conds := map[*Term][]*Term{}
	for _, e := range exits {
		if e.s.dead {
			continue
		}
		var cs []*Term
		for _, p := range e.s.pc[len(st.pc):] {
			if p.branch {
				cs = append(cs, p.t)
			}
		}
		r := e.r.(*Term)
		if conds[r] == nil {
			order = append(order, r)
		}
		conds[r] = append(conds[r], c.And(cs...))
	}
	res := order[len(order)-1]
	for i := len(order) - 2; i >= 0; i-- {
		res = c.Ite(x.orRanges(conds[order[i]]), order[i], res)
	}
	x.fnStack = stack
	k(st, []Val{res})
	x.fnStack = stack
}

// orRanges is the disjunction, with v==k alternatives joined into intervals.
func (x *Exec) orRanges(cs []*Term) *Term {
	c := x.c
	vals := map[*Term][]*big.Int{}
	var vo []*Term
	var rest []*Term
	for _, t := range cs {
		// a conjunction that ends in an equation with a constant implies the rest only if the
		// rest is about the same variable: evaluate it
		eq := t
		if t.op == "and" {
			for _, a := range t.args {
				if a.op == "eq" && a.args[0].sort == SInt && (a.args[0].isInt() || a.args[1].isInt()) {
					eq = a
				}
			}
		}
		if eq.op == "eq" && eq.args[0].sort == SInt {
			v, n := eq.args[0], eq.args[1]
			if v.isInt() {
				v, n = n, v
			}
			if n.isInt() && !v.isInt() && (eq == t || c.Subst(t, v, n).isTrue()) {
				if vals[v] == nil {
					vo = append(vo, v)
				}
				vals[v] = append(vals[v], n.n)
				continue
			}
		}
		rest = append(rest, t)
	}
	for _, v := range vo {
		ns := vals[v]
		sort.Slice(ns, func(i, j int) bool { return ns[i].Cmp(ns[j]) < 0 })
		for i := 0; i < len(ns); {
			j := i
			for j+1 < len(ns) && new(big.Int).Sub(ns[j+1], ns[j]).Cmp(bigOne) <= 0 {
				j++
			}
			if i == j {
				rest = append(rest, c.Eq(v, c.BigInt(ns[i])))
			} else {
				rest = append(rest, c.And(c.Le(c.BigInt(ns[i]), v), c.Le(v, c.BigInt(ns[j]))))
			}
			i = j + 1
		}
	}
	return c.Or(rest...)
}

func (x *Exec) jump(st *State, fr *frame, from, to *ssa.BasicBlock) {
	if n := len(fr.joins); n > 0 && fr.joins[n-1].blk == to && fr.joins[n-1].loops == len(fr.loops) {
		*fr.joins[n-1].got = append(*fr.joins[n-1].got, arrival{st: st, fr: fr, from: from})
		return
	}
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if to == lc.header && lc.body[from] {
			lc.onBack(st, fr, from)
			return
		}
		if lc.body[to] {
			break
		}
		// leaving the loop
		if lc.dry {
			lc.onExit(st)
			return
		}
		st.its = lc.outer
		x.use(st)
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	lt := x.loops(fr.fn)
	if body, ok := lt.body[to]; ok {
		x.enterLoop(st, fr, from, to, body)
		return
	}
	x.phis(st, fr, from, to)
	x.instrs(st, fr, to, firstNonPhi(to))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}
func (x *Exec) phiVals(st *State, fr *frame, from, to *ssa.BasicBlock) []Val {
	var e int
	for i, p := range to.Preds {
		if p == from {
			e = i
		}
	}
	var vs []Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(st, fr, ph.Edges[e]))
	}
	return vs
}
func (x *Exec) setPhis(fr *frame, to *ssa.BasicBlock, vs []Val) {
	for i, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.regs[ph] = vs[i]
	}
}
func (x *Exec) phis(st *State, fr *frame, from, to *ssa.BasicBlock) {
	x.setPhis(fr, to, x.phiVals(st, fr, from, to))
}

func (x *Exec) val(st *State, fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &VFunc{fn: v, sig: v.Signature}
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			if _, sp := specialLeaves(t); !sp {
				return &VPtr{cls: "[]" + className(a.Elem()), idx: []*Term{x.globalRef(v.String())}, elem: t, arrN: a.Len()}
			}
		}
		return &VPtr{cls: "G:" + v.String(), idx: []*Term{}, elem: t}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.regs[v]
	if !ok {
		x.unsupported("no value for %s", v.Name())
	}
	return r
}
func (x *Exec) globalRef(n string) *Term {
	h := int64(0)
	for _, ch := range n {
		h = (h*31 + int64(ch)) % (1 << 30)
	}
	return x.c.Int(1<<39 + h)
}

func (x *Exec) constVal(v *ssa.Const) Val {
	if v.Value == nil {
		return x.zero(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return x.c.Str(constant.StringVal(v.Value))
	case constant.Int:
		if basicKind(v.Type()) == "float" {
			return x.c.App("inj.fconst", SInt, x.c.Str(v.Value.ExactString()))
		}
		n, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
		return x.c.BigInt(n)
	case constant.Float:
		if basicKind(v.Type()) != "float" {
			n, _ := new(big.Int).SetString(constant.ToInt(v.Value).ExactString(), 10)
			return x.c.BigInt(n)
		}
		return x.c.App("inj.fconst", SInt, x.c.Str(v.Value.ExactString()))
	}
	x.unsupported("constant %s", v)
	return nil
}

// ---------- instructions ----------

func (x *Exec) instrs(st *State, fr *frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.use(st)
		if st.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
		case *ssa.Jump:
			x.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			cond := x.val(st, fr, in.Cond).(*Term)
			if x.peek != nil && x.peek.blk == b {
				if cond.isTrue() || cond.isFalse() {
					v := cond.isTrue()
					x.peek.res = &v
				} else if st.pcset[cond] || st.pcset[x.c.Not(cond)] {
					v := st.pcset[cond]
					x.peek.res = &v
				}
				x.peek.got = true
				return
			}
			if x.merging && x.forkJoin(st, fr, cond, b) {
				return
			}
			fr2 := fr.clone()
			x.fork(st, cond, func(s *State) { x.jump(s, fr, b, b.Succs[0]) }, func(s *State) { x.jump(s, fr2, b, b.Succs[1]) })
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(st, fr, r))
			}
			for j := len(fr.loops) - 1; j >= 0; j-- {
				if fr.loops[j].dry {
					fr.loops[j].onExit(st)
					return
				}
			}
			if len(fr.loops) > 0 {
				st.its = fr.loops[0].outer
				x.use(st)
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			if !x.allowPanic {
				x.oblige(st, x.safety, "safety: explicit panic unreachable", in.Pos(), x.c.Bool(false))
			}
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			x.runDefers(st, fr, ds, func(s *State, f2 *frame) { x.instrs(s, f2, b, i+1) })
			return
		case *ssa.Defer:
			if len(fr.loops) > 0 {
				x.unsupported("defer in a loop")
			}
			d := deferred{call: &in.Call}
			d.fn = x.calleeVal(st, fr, &in.Call)
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			if x.hooks.call != nil {
				x.hooks.call(st, "go", nil, nil)
			}
			st.nspawn++
			f := x.calleeVal(st, fr, &in.Call)
			var args []Val
			for _, a := range in.Call.Args {
				args = append(args, x.val(st, fr, a))
			}
			st.events = append(st.events, Event{name: "go", args: append([]Val{f}, args...), st: nil})
			x.bump(st, "$spawns")
			if vf, ok := f.(*VFunc); ok && vf.fn != nil {
				x.bump(st, "$go:"+normName(fnName(vf.fn)))
				if x.spawnRuns {
					x.wrHeap(st, "$ingo", nil, SInt, x.c.Int(1))
					x.callFunc(st, vf, args, in.Pos(), func(s *State, _ []Val) {
						x.wrHeap(s, "$ingo", nil, SInt, x.c.Int(0))
						x.instrs(s, fr, b, i+1)
					})
					return
				}
			}
		case *ssa.Store:
			x.store(st, x.val(st, fr, in.Addr).(*VPtr), x.val(st, fr, in.Val), in.Pos())
		case *ssa.MapUpdate:
			x.mapUpdate(st, in.Map.Type(), x.val(st, fr, in.Map).(*Term), x.val(st, fr, in.Key), x.val(st, fr, in.Value), in.Pos())
		case *ssa.Send:
			ch := x.val(st, fr, in.Chan).(*Term)
			x.send(st, in.Chan.Type(), ch, x.val(st, fr, in.X), in.Pos())
		case *ssa.Call:
			x.callInstr(st, fr, &in.Call, in.Pos(), func(s *State, rs []Val) {
				f2 := fr.clone()
				switch {
				case len(rs) == 1 && in.Call.Signature().Results().Len() <= 1:
					f2.regs[in] = rs[0]
				default:
					f2.regs[in] = VTuple(rs)
				}
				x.instrs(s, f2, b, i+1)
			})
			return
		case *ssa.Select:
			x.selectInstr(st, fr, in, func(s *State, v Val) {
				f2 := fr.clone()
				f2.regs[in] = v
				x.instrs(s, f2, b, i+1)
			})
			return
		case *ssa.TypeAssert:
			if x.typeAssert(st, fr, in, func(s *State, v Val) {
				f2 := fr.clone()
				f2.regs[in] = v
				x.instrs(s, f2, b, i+1)
			}) {
				return
			}
		case *ssa.Next:
			x.next(st, fr, in, func(s *State, v Val) {
				f2 := fr.clone()
				f2.regs[in] = v
				x.instrs(s, f2, b, i+1)
			})
			return
		case *ssa.BinOp:
			// small-domain case split for bit tricks
			if v, ok := x.smallDomain(st, fr, in); ok {
				x.splitOn(st, v, func(s *State) {
					f2 := fr.clone()
					x.substFrame(f2, v, s)
					x.instrs(s, f2, b, i)
				})
				return
			}
			fr.regs[in] = x.binop(st, in.Op, x.val(st, fr, in.X), x.val(st, fr, in.Y), in.X.Type(), in.Type(), in.Pos())
		case ssa.Value:
			fr.regs[in] = x.simple(st, fr, in)
		default:
			x.unsupported("instruction %T", in)
		}
	}
}

func (x *Exec) bump(st *State, g string) {
	x.wrHeap(st, g, nil, SInt, x.c.Add(x.rdHeap(st, g, nil, SInt), x.c.Int(1)))
}

// smallDomain: an operand of a bit operation that can take only a few values.
func (x *Exec) smallDomain(st *State, fr *frame, in *ssa.BinOp) (*Term, bool) {
	switch in.Op {
	case token.OR, token.XOR, token.SHR, token.SHL, token.AND_NOT:
	default:
		return nil, false
	}
	for _, o := range []ssa.Value{in.X, in.Y} {
		t, ok := x.val(st, fr, o).(*Term)
		if !ok || t.sort != SInt || t.isInt() {
			continue
		}
		if in.Op == token.SHR && o == in.X {
			if y, ok := x.val(st, fr, in.Y).(*Term); ok && y.isInt() && len(st.its) > 0 {
				continue
			}
		}
		b := x.c.bnd(t)
		if b.lo != nil && b.hi != nil && new(big.Int).Sub(b.hi, b.lo).Cmp(big.NewInt(64)) <= 0 {
			return t, true
		}
	}
	return nil, false
}

// splitOn forks on every value of t in its interval.
func (x *Exec) splitOn(st *State, t *Term, k func(*State)) {
	b := x.c.bnd(t)
	for v := new(big.Int).Set(b.lo); v.Cmp(b.hi) <= 0; v = new(big.Int).Add(v, bigOne) {
		s := st.clone()
		eq := x.c.mk("eq", SBool, "", nil, nil, t, x.c.BigInt(v))
		if !x.feasible(s, eq) {
			continue
		}
		x.paths++
		x.assume(s, x.c.Eq(t, x.c.BigInt(v)), true)
		if !s.dead {
			k(s)
		}
	}
}

// substFrame replaces t by its now fixed value in the registers.
func (x *Exec) substFrame(fr *frame, t *Term, st *State) {
	x.use(st)
	b := x.c.bnd(t)
	if b.lo == nil || b.hi == nil || b.lo.Cmp(b.hi) != 0 {
		return
	}
	cv := x.c.BigInt(b.lo)
	for r, v := range fr.regs {
		if tm, ok := v.(*Term); ok && !tm.isInt() && x.c.contains(tm, t) {
			fr.regs[r] = x.c.Subst(tm, t, cv)
		}
	}
}

func (x *Exec) simple(st *State, fr *frame, in ssa.Value) Val {
	c := x.c
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if _, ok := t.Underlying().(*types.Array); ok {
			if _, sp := specialLeaves(t); !sp {
				return x.newObj(st, t)
			}
		}
		if _, ok := t.Underlying().(*types.Struct); ok && in.Heap {
			return x.newObj(st, t)
		}
		return x.newCell(st, x.zero(t), t)
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X).(*VPtr)
		x.nonNil(st, p, in.Pos())
		s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return x.field(p, s, in.Field)
	case *ssa.Field:
		return child(x.val(st, fr, in.X), in.Field)
	case *ssa.IndexAddr:
		i := x.val(st, fr, in.Index).(*Term)
		switch s := x.val(st, fr, in.X).(type) {
		case *VSlice:
			x.safe(st, "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, s.len)))
			return &VPtr{cls: "[]" + className(s.elem), idx: []*Term{s.arr, c.Add(s.off, i)}, elem: s.elem}
		case *VPtr:
			if s.arrN > 0 {
				x.safe(st, "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(s.arrN))))
				et := s.elem.Underlying().(*types.Array).Elem()
				return &VPtr{cls: s.cls, idx: []*Term{s.idx[0], i}, elem: et}
			}
			if s.cls == "" && i.isInt() {
				a := s.elem.Underlying().(*types.Array)
				return &VPtr{cell: s.cell, path: append(append([]int(nil), s.path...), int(i.n.Int64())), elem: a.Elem()}
			}
			if i.isInt() {
				if a, ok := s.elem.Underlying().(*types.Array); ok {
					return &VPtr{cls: s.cls + fmt.Sprintf("[%d]", i.n.Int64()), idx: s.idx, elem: a.Elem()}
				}
			}
		}
		x.unsupported("index of %T", x.val(st, fr, in.X))
	case *ssa.Index:
		v := x.val(st, fr, in.X)
		i := x.val(st, fr, in.Index).(*Term)
		if a, ok := v.(*VArr); ok && i.isInt() {
			return a.elems[i.n.Int64()]
		}
		if t, ok := v.(*Term); ok {
			l := c.App("strlen", SInt, t)
			x.safe(st, "index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, l)))
			r := c.App("strat", SInt, t, i)
			x.rangeFact(r, "u8")
			return r
		}
		x.unsupported("index value")
	case *ssa.UnOp:
		return x.unop(st, fr, in)
	case *ssa.Extract:
		return x.val(st, fr, in.Tuple).(VTuple)[in.Index]
	case *ssa.MakeInterface:
		return &VIface{dyn: in.X.Type(), val: x.val(st, fr, in.X)}
	case *ssa.ChangeInterface:
		return x.val(st, fr, in.X)
	case *ssa.ChangeType:
		return x.val(st, fr, in.X)
	case *ssa.Convert:
		return x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.MultiConvert:
		return x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.MakeClosure:
		f := &VFunc{fn: in.Fn.(*ssa.Function), sig: in.Fn.(*ssa.Function).Signature}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.val(st, fr, b))
		}
		return f
	case *ssa.MakeSlice:
		l := x.val(st, fr, in.Len).(*Term)
		cp := x.val(st, fr, in.Cap).(*Term)
		x.safe(st, "make length in range", in.Pos(), c.And(c.Le(c.Int(0), l), c.Le(l, cp)))
		r := x.newRef()
		et := in.Type().Underlying().(*types.Slice).Elem()
		x.zeroSlice(st, et, r)
		x.wrHeap(st, "$frontier", []*Term{r}, SInt, l)
		x.factRange(l, nil, maxLen)
		return &VSlice{elem: et, arr: r, off: c.Int(0), len: l, cap: cp}
	case *ssa.MakeMap:
		r := x.newRef()
		x.clearMap(st, in.Type().Underlying().(*types.Map), r)
		return r
	case *ssa.MakeChan:
		r := x.newRef()
		x.wrHeap(st, "chan.closed", []*Term{r}, SBool, c.Bool(false))
		x.wrHeap(st, "chan.cap", []*Term{r}, SInt, x.val(st, fr, in.Size).(*Term))
		x.wrHeap(st, "chan.len", []*Term{r}, SInt, c.Int(0))
		x.wrHeap(st, "chan.sent", []*Term{r}, SInt, c.Int(0))
		x.wrHeap(st, "chan.nrecv", []*Term{r}, SInt, c.Int(0))
		return r
	case *ssa.Slice:
		return x.sliceInstr(st, fr, in)
	case *ssa.Lookup:
		return x.lookup(st, fr, in)
	case *ssa.Range:
		return x.rangeInstr(st, fr, in)
	}
	x.unsupported("value %T", in)
	return nil
}

func (x *Exec) sliceInstr(st *State, fr *frame, in *ssa.Slice) Val {
	c := x.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(st, fr, v).(*Term)
	}
	switch s := x.val(st, fr, in.X).(type) {
	case *VSlice:
		lo, hi := get(in.Low, c.Int(0)), get(in.High, s.len)
		mx := get(in.Max, s.cap)
		x.safe(st, "slice bounds", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, s.cap)))
		return &VSlice{elem: s.elem, arr: s.arr, off: c.Add(s.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo)}
	case *VPtr:
		if s.arrN > 0 {
			n := c.Int(s.arrN)
			lo, hi := get(in.Low, c.Int(0)), get(in.High, n)
			x.safe(st, "slice bounds", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)))
			return &VSlice{elem: s.elem.Underlying().(*types.Array).Elem(), arr: s.idx[0], off: lo, len: c.Sub(hi, lo), cap: c.Sub(n, lo)}
		}
	case *Term: // string
		l := c.App("strlen", SInt, s)
		lo, hi := get(in.Low, c.Int(0)), get(in.High, l)
		x.safe(st, "slice bounds", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, l)))
		return c.App("substr", SInt, s, lo, hi)
	}
	x.unsupported("slice of %T", x.val(st, fr, in.X))
	return nil
}

func (x *Exec) unop(st *State, fr *frame, in *ssa.UnOp) Val {
	c := x.c
	switch in.Op {
	case token.MUL:
		v := x.val(st, fr, in.X)
		p, ok := v.(*VPtr)
		if !ok {
			x.unsupported("load through %T", v)
		}
		return x.load(st, p, in.Pos())
	case token.NOT:
		return c.Not(x.val(st, fr, in.X).(*Term))
	case token.SUB:
		k := basicKind(in.Type())
		t := x.val(st, fr, in.X).(*Term)
		if k == "float" {
			return c.App("fneg", SInt, t)
		}
		return c.Wrap(k, c.Neg(t))
	case token.XOR:
		k := basicKind(in.Type())
		t := x.val(st, fr, in.X).(*Term)
		if k[0] == 'u' {
			_, hi, _ := wrapRange(k)
			return c.Sub(c.BigInt(hi), t)
		}
		return c.Sub(c.Int(-1), t)
	case token.ARROW:
		return x.recv(st, fr, in)
	}
	x.unsupported("unop %s", in.Op)
	return nil
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t, rt types.Type, pos token.Pos) Val {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, a, b)
	case token.NEQ:
		return c.Not(x.equal(st, a, b))
	}
	p, q := a.(*Term), b.(*Term)
	k := basicKind(t)
	switch k {
	case "string":
		switch op {
		case token.ADD:
			if s1, ok := c.strVal[p]; ok {
				if s2, ok := c.strVal[q]; ok {
					return c.Str(s1 + s2)
				}
			}
			return x.cat(p, q)
		case token.LSS:
			return c.App("strlt", SBool, p, q)
		case token.GTR:
			return c.App("strlt", SBool, q, p)
		case token.LEQ:
			return c.Not(c.App("strlt", SBool, q, p))
		case token.GEQ:
			return c.Not(c.App("strlt", SBool, p, q))
		}
	case "float":
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				p, q = q, p
			}
			n1, r1 := x.floatRank(p)
			n2, r2 := x.floatRank(q)
			rel := c.Le(r1, r2)
			if op == token.LSS || op == token.GTR {
				rel = c.Lt(r1, r2)
			}
			return c.And(c.Not(n1), c.Not(n2), rel)
		}
		return c.App("f"+op.String(), SInt, p, q)
	}
	zero := c.Int(0)
	switch op {
	case token.LSS:
		return c.Lt(p, q)
	case token.LEQ:
		return c.Le(p, q)
	case token.GTR:
		return c.Gt(p, q)
	case token.GEQ:
		return c.Ge(p, q)
	}
	rk := basicKind(rt)
	nonneg := func(t *Term) bool { b := c.bnd(t); return b.lo != nil && b.lo.Sign() >= 0 }
	switch op {
	case token.ADD:
		return c.Wrap(rk, c.Add(p, q))
	case token.SUB:
		return c.Wrap(rk, c.Sub(p, q))
	case token.MUL:
		return c.Wrap(rk, c.Mul(p, q))
	case token.QUO, token.REM:
		x.safe(st, "division by zero", pos, c.Ne(q, zero))
		var d, m *Term
		if nonneg(p) && nonneg(q) {
			d, m = c.Div(p, q), c.Mod(p, q)
		} else {
			ap := c.Ite(c.Ge(p, zero), p, c.Neg(p))
			aq := c.Ite(c.Ge(q, zero), q, c.Neg(q))
			dd, mm := c.Div(ap, aq), c.Mod(ap, aq)
			same := c.Eq(c.Ge(p, zero), c.Ge(q, zero))
			d = c.Wrap(rk, c.Ite(same, dd, c.Neg(dd)))
			m = c.Ite(c.Ge(p, zero), mm, c.Neg(mm))
		}
		if op == token.QUO {
			return d
		}
		return m
	case token.SHL:
		if q.isInt() {
			if q.n.Cmp(big.NewInt(64)) >= 0 {
				return zero
			}
			return c.Wrap(rk, c.Scale(p, new(big.Int).Lsh(bigOne, uint(q.n.Int64()))))
		}
		return c.Wrap(rk, c.Mul(p, c.App("pow2", SInt, q)))
	case token.SHR:
		if q.isInt() {
			if q.n.Cmp(big.NewInt(64)) >= 0 {
				return c.Ite(c.Ge(p, zero), zero, c.Int(-1))
			}
			return c.Div(p, c.BigInt(new(big.Int).Lsh(bigOne, uint(q.n.Int64()))))
		}
		return c.Div(p, c.App("pow2", SInt, q))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.isInt() && q.isInt() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(p.n, q.n)
			case token.OR:
				r.Or(p.n, q.n)
			case token.XOR:
				r.Xor(p.n, q.n)
			case token.AND_NOT:
				r.AndNot(p.n, q.n)
			}
			return c.Wrap(rk, c.BigInt(r))
		}
		if p.id > q.id && op != token.AND_NOT {
			p, q = q, p
		}
		name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}[op]
		r := c.App(name, SInt, p, q)
		x.rangeFact(r, rk)
		return r
	}
	x.unsupported("binop %s on %s", op, t)
	return nil
}

// equal compares two values of the same type.
func (x *Exec) equal(st *State, a, b Val) *Term {
	c := x.c
	switch p := a.(type) {
	case *Term:
		return x.eqTerm(p, b.(*Term))
	case *VIface:
		q := b.(*VIface)
		t1, p1 := x.ifaceTerms(p)
		t2, p2 := x.ifaceTerms(q)
		if t2.isInt() && t2.n.Sign() == 0 {
			return c.Eq(t1, t2)
		}
		if t1.isInt() && t1.n.Sign() == 0 {
			return c.Eq(t1, t2)
		}
		return c.And(c.Eq(t1, t2), c.Eq(p1, p2))
	case *VPtr:
		q := b.(*VPtr)
		if p.cls == "" || q.cls == "" {
			if p.cls == q.cls {
				return c.Bool(p.cell == q.cell && fmt.Sprint(p.path) == fmt.Sprint(q.path))
			}
			return c.Bool(false)
		}
		if len(p.idx) == len(q.idx) && len(p.idx) > 0 {
			var es []*Term
			for i := range p.idx {
				es = append(es, c.Eq(p.idx[i], q.idx[i]))
			}
			return c.And(es...)
		}
		isNil := func(v *VPtr) bool { return len(v.idx) == 1 && v.idx[0].isInt() && v.idx[0].n.Sign() == 0 }
		if isNil(p) && len(q.idx) == 2 || isNil(q) && len(p.idx) == 2 {
			return c.Bool(false)
		}
		if len(p.idx) == 0 || len(q.idx) == 0 {
			return c.Bool(p.cls == q.cls && len(p.idx) == len(q.idx))
		}
	case *VSlice:
		q := b.(*VSlice)
		if p.arr.isInt() && p.arr.n.Sign() == 0 {
			p, q = q, p
		}
		if q.arr.isInt() && q.arr.n.Sign() == 0 {
			if x.lazyNil[p.arr] {
				// nil before the loop; certainly not nil once it has elements
				b := c.Fresh("isnil", SBool)
				x.assume(st, c.Or(c.Not(b), c.Eq(p.len, c.Int(0))), false)
				return b
			}
			return c.Eq(p.arr, c.Int(0))
		}
	case *VStruct:
		q := b.(*VStruct)
		var es []*Term
		for i := range p.fields {
			if p.fields[i] != nil {
				es = append(es, x.equal(st, p.fields[i], q.fields[i]))
			}
		}
		return c.And(es...)
	case *VArr:
		q := b.(*VArr)
		var es []*Term
		for i := range p.elems {
			es = append(es, x.equal(st, p.elems[i], q.elems[i]))
		}
		return c.And(es...)
	case *VFunc:
		q := b.(*VFunc)
		return c.Eq(x.funcRef(p), x.funcRef(q))
	}
	x.unsupported("comparison of %T", a)
	return nil
}

func (x *Exec) eqTerm(a, b *Term) *Term {
	c := x.c
	if a.op == "app" && b.op == "app" && a.name == b.name && strings.HasPrefix(a.name, "inj.") {
		var es []*Term
		for i := range a.args {
			es = append(es, x.eqTerm(a.args[i], b.args[i]))
		}
		return c.And(es...)
	}
	return c.Eq(a, b)
}

// floatRank: whether a float is not a number, and its position in the order of the floats.
func (x *Exec) floatRank(t *Term) (*Term, *Term) {
	c := x.c
	if t.op == "app" && t.name == "inj.fconst" {
		if s, ok := c.strVal[t.args[0]]; ok {
			if r, ok := new(big.Rat).SetString(s); ok {
				f, _ := r.Float64()
				return c.Bool(false), c.Int(floatOrder(f))
			}
		}
	}
	r := c.App("frank", SInt, t)
	x.rangeFact(r, "s64")
	return c.App("fnan", SBool, t), r
}

// floatOrder maps floats to integers, keeping their order.
func floatOrder(f float64) int64 {
	if f == 0 {
		return 0
	}
	if f < 0 {
		return -int64(math.Float64bits(-f))
	}
	return int64(math.Float64bits(f))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	c := x.c
	fk, tk := basicKind(from), basicKind(to)
	isInt := func(k string) bool { return k != "" && (k[0] == 's' || k[0] == 'u') && k != "string" }
	switch {
	case isInt(fk) && isInt(tk):
		return c.Wrap(tk, v.(*Term))
	case fk == tk && fk != "":
		return v
	case fk == "float" && isInt(tk):
		r := c.App("ftoi."+tk, SInt, v.(*Term))
		x.rangeFact(r, tk)
		return r
	case isInt(fk) && tk == "float":
		return c.App("itof", SInt, v.(*Term))
	case isInt(fk) && tk == "string":
		return c.App("runestr", SInt, v.(*Term))
	case tk == "string": // []byte -> string
		if s, ok := v.(*VSlice); ok {
			return x.bytesToString(st, s)
		}
	case fk == "string":
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return x.stringToBytes(st, v.(*Term), sl.Elem())
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	x.unsupported("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) stringToBytes(st *State, s *Term, elem types.Type) *VSlice {
	c := x.c
	r := x.newRef()
	l := c.App("strlen", SInt, s)
	cls := "[]" + className(elem)
	h := x.heapArr(st, cls, 2, SInt)
	st.heap[cls] = c.Store(h, r, c.App("bytesof", arrSort(SInt, SInt), s))
	return &VSlice{elem: elem, arr: r, off: c.Int(0), len: l, cap: l}
}
func (x *Exec) bytesToString(st *State, s *VSlice) *Term {
	c := x.c
	h := x.heapArr(st, "[]"+className(s.elem), 2, SInt)
	content := c.Select(h, s.arr)
	if content.op == "app" && content.name == "bytesof" && s.off.isInt() && s.off.n.Sign() == 0 && s.len == c.App("strlen", SInt, content.args[0]) {
		return content.args[0]
	}
	return c.App("strof", SInt, content, s.off, s.len)
}

// ---------- maps ----------

func mapCls(m *types.Map) string {
	return "map[" + className(m.Key()) + "]" + className(m.Elem())
}
func (x *Exec) clearMap(st *State, m *types.Map, r *Term) {
	c := x.c
	cls := mapCls(m)
	h := x.heapArr(st, cls+".dom", 2, SBool)
	st.heap[cls+".dom"] = c.Store(h, r, c.ConstArr(arrSort(SInt, SBool), c.Bool(false)))
	x.wrHeap(st, cls+".len", []*Term{r}, SInt, c.Int(0))
	x.encode(m.Elem(), x.zero(m.Elem()), func(suf string, s Sort, v *Term) {
		h := x.heapArr(st, cls+".val"+suf, 2, s)
		st.heap[cls+".val"+suf] = c.Store(h, r, c.ConstArr(arrSort(SInt, s), v))
	})
}
func (x *Exec) mapGet(st *State, m *types.Map, r, key *Term) (Val, *Term) {
	cls := mapCls(m)
	idx := []*Term{r, key}
	dom := x.rdHeap(st, cls+".dom", idx, SBool)
	// canonical maps: absent keys hold the zero value
	if x.guard != nil {
		x.guard(st, cls+".dom", idx, false)
	}
	v := x.decode(m.Elem(), func(suf string, s Sort) *Term {
		t := x.rdHeap(st, cls+".val"+suf, idx, s)
		x.refFact(st, m.Elem(), t)
		return t
	})
	x.zeroWhenAbsent(st, m, cls, idx, dom)
	return v, dom
}
func (x *Exec) zeroWhenAbsent(st *State, m *types.Map, cls string, idx []*Term, dom *Term) {
	c := x.c
	if x.noFacts || dom.isTrue() {
		return
	}
	x.encode(m.Elem(), x.zero(m.Elem()), func(suf string, s Sort, z *Term) {
		v := x.rdHeap(st, cls+".val"+suf, idx, s)
		if v.hasB {
			return
		}
		x.assume(st, c.Or(dom, c.Eq(v, z)), false)
	})
}
func (x *Exec) lookup(st *State, fr *frame, in *ssa.Lookup) Val {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		t := x.val(st, fr, in.X).(*Term)
		i := x.val(st, fr, in.Index).(*Term)
		l := x.c.App("strlen", SInt, t)
		x.safe(st, "index in range", in.Pos(), x.c.And(x.c.Le(x.c.Int(0), i), x.c.Lt(i, l)))
		r := x.c.App("strat", SInt, t, i)
		x.rangeFact(r, "u8")
		return r
	}
	r := x.val(st, fr, in.X).(*Term)
	key := x.keyTerm(mt.Key(), x.val(st, fr, in.Index))
	v, dom := x.mapGet(st, mt, r, key)
	if in.CommaOk {
		return VTuple{v, dom}
	}
	return v
}
func (x *Exec) mapUpdate(st *State, t types.Type, r *Term, kv, v Val, pos token.Pos) {
	mt := t.Underlying().(*types.Map)
	cls := mapCls(mt)
	c := x.c
	b := c.bnd(r)
	if b.lo == nil || b.lo.Sign() <= 0 {
		x.safe(st, "write to a nil map", pos, c.Ne(r, c.Int(0)))
	}
	idx := []*Term{r, x.keyTerm(mt.Key(), kv)}
	if x.guard != nil {
		x.guard(st, cls+".dom", idx, true)
	}
	dom := x.rdHeap(st, cls+".dom", idx, SBool)
	n := x.rdHeap(st, cls+".len", idx[:1], SInt)
	x.wrHeap(st, cls+".len", idx[:1], SInt, c.Add(n, c.Ite(dom, c.Int(0), c.Int(1))))
	x.wrHeap(st, cls+".dom", idx, SBool, c.Bool(true))
	x.encode(mt.Elem(), v, func(suf string, s Sort, tm *Term) { x.wrHeap(st, cls+".val"+suf, idx, s, tm) })
}
func (x *Exec) mapDelete(st *State, mt *types.Map, r *Term, kv Val) {
	cls := mapCls(mt)
	c := x.c
	idx := []*Term{r, x.keyTerm(mt.Key(), kv)}
	dom := x.rdHeap(st, cls+".dom", idx, SBool)
	n := x.rdHeap(st, cls+".len", idx[:1], SInt)
	x.wrHeap(st, cls+".len", idx[:1], SInt, c.Sub(n, c.Ite(dom, c.Int(1), c.Int(0))))
	x.wrHeap(st, cls+".dom", idx, SBool, c.Bool(false))
	x.encode(mt.Elem(), x.zero(mt.Elem()), func(suf string, s Sort, tm *Term) { x.wrHeap(st, cls+".val"+suf, idx, s, tm) })
}

// Map iteration: a hidden position cell, with key#n(i) enumerating the domain at loop start.
type vIter struct {
	pos *VPtr
	mt  *types.Map
	ref *Term
	en  *enum
	n   *Term
	dom *Term
	str *Term
}

func (x *Exec) rangeInstr(st *State, fr *frame, in *ssa.Range) Val {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	pos := x.newCell(st, x.c.Int(0), types.Typ[types.Int])
	if !ok {
		return &vIter{pos: pos, str: x.val(st, fr, in.X).(*Term)}
	}
	r := x.val(st, fr, in.X).(*Term)
	dom := x.c.Select(x.heapArr(st, mapCls(mt)+".dom", 2, SBool), r)
	n := x.rdHeap(st, mapCls(mt)+".len", []*Term{r}, SInt)
	en := x.enumerate(st, dom, n)
	return &vIter{pos: pos, mt: mt, ref: r, en: en, n: n, dom: dom}
}

// enumerate introduces an enumeration of the finite set dom with n elements:
// mkey#id(0..n-1) lists it without repetition, mpos#id is the inverse.
func (x *Exec) enumerate(st *State, dom, n *Term) *enum {
	x.use(st)
	c := x.c
	c.fresh["enum"]++
	e := &enum{id: c.fresh["enum"], its: st.its, c: c, dom: dom, n: n}
	z := c.Int(0)
	x.assume(st, c.Le(z, n), false)
	kn, pn := fmt.Sprintf("mkey#%d", e.id), fmt.Sprintf("mpos#%d", e.id)
	// the argument of mkey/mpos after the iteration counters
	keyFact := func(t *Term) *Term {
		i := t.args[len(e.its)]
		return c.Imp(c.And(c.Le(z, i), c.Lt(i, n)), c.And(c.Select(dom, t), c.mk("eq", SBool, "", nil, nil, c.mk("app", SInt, pn, nil, nil, append(append([]*Term(nil), e.its...), t)...), i)))
	}
	posFact := func(t *Term) *Term {
		if t.op != "app" || t.name != pn {
			return c.Bool(true)
		}
		k := t.args[len(e.its)]
		return c.Imp(c.Select(dom, k), c.And(c.Le(z, t), c.Lt(t, n), c.Eq(e.key(t), k)))
	}
	if len(e.its) == 0 {
		c.rules[kn], c.rules[pn] = keyFact, posFact
		c.selRules[dom] = append(c.selRules[dom], func(k *Term) *Term { return posFact(e.pos(k)) })
	}
	i := c.TempBV()
	x.assume(st, c.Forall(i, keyFact(e.key(i))), false)
	x.assume(st, c.Forall(i, posFact(e.pos(i))), false)
	x.enums = append(x.enums, e)
	return e
}

type enum struct {
	id     int
	its    []*Term
	c      *Ctx
	dom, n *Term
}

func (e *enum) key(i *Term) *Term {
	return e.c.App(fmt.Sprintf("mkey#%d", e.id), SInt, append(append([]*Term(nil), e.its...), i)...)
}
func (e *enum) pos(k *Term) *Term {
	return e.c.App(fmt.Sprintf("mpos#%d", e.id), SInt, append(append([]*Term(nil), e.its...), k)...)
}

func (x *Exec) next(st *State, fr *frame, in *ssa.Next, k func(*State, Val)) {
	it := x.val(st, fr, in.Iter).(*vIter)
	c := x.c
	p := x.load(st, it.pos, in.Pos()).(*Term)
	if it.str != nil {
		x.unsupported("range over a string")
	}
	key := it.en.key(p)
	kt := it.mt.Key()
	x.fork(st, c.Lt(p, it.n), func(s *State) {
		x.store(s, it.pos, c.Add(p, c.Int(1)), in.Pos())
		x.use(s)
		x.assume(s, c.Select(it.dom, key), false)
		kv := x.unpay(kt, key)
		v, _ := x.mapGet(s, it.mt, it.ref, key)
		k(s, VTuple{c.Bool(true), kv, v})
	}, func(s *State) {
		k(s, VTuple{c.Bool(false), x.zero(kt), x.zero(it.mt.Elem())})
	})
}

// typeAssert returns true when it took over the continuation.
func (x *Exec) typeAssert(st *State, fr *frame, in *ssa.TypeAssert, k func(*State, Val)) bool {
	c := x.c
	iv := x.val(st, fr, in.X).(*VIface)
	if _, isIf := in.AssertedType.Underlying().(*types.Interface); isIf {
		if iv.dyn != nil {
			ok := types.AssertableTo(in.AssertedType.Underlying().(*types.Interface), iv.dyn)
			if ok {
				ok = types.Implements(iv.dyn, in.AssertedType.Underlying().(*types.Interface))
			}
			if in.CommaOk {
				k(st, VTuple{iv, c.Bool(ok)})
				return true
			}
			x.safe(st, "type assertion", in.Pos(), c.Bool(ok))
			k(st, iv)
			return true
		}
		if in.CommaOk {
			t, _ := x.ifaceTerms(iv)
			okT := c.App("implements."+className(in.AssertedType), SBool, t)
			x.fork(st, c.And(okT, c.Ne(t, c.Int(0))), func(s *State) { k(s, VTuple{iv, c.Bool(true)}) },
				func(s *State) { k(s, VTuple{&VIface{}, c.Bool(false)}) })
			return true
		}
		x.unsupported("assertion to interface")
	}
	tag, pay := x.ifaceTerms(iv)
	want := x.tagOf(in.AssertedType)
	is := c.Eq(tag, want)
	val := func() Val {
		if iv.dyn != nil && iv.val != nil {
			return iv.val
		}
		return x.unpay(in.AssertedType, pay)
	}
	if in.CommaOk {
		x.fork(st, is, func(s *State) { k(s, VTuple{val(), c.Bool(true)}) },
			func(s *State) { k(s, VTuple{x.zero(in.AssertedType), c.Bool(false)}) })
		return true
	}
	x.safe(st, "type assertion", in.Pos(), is)
	k(st, val())
	return true
}

// ---------- channels ----------

func (x *Exec) recv(st *State, fr *frame, in *ssa.UnOp) Val {
	ct := in.X.Type().Underlying().(*types.Chan)
	ch := x.val(st, fr, in.X).(*Term)
	v := x.recvVal(st, ct, ch)
	st.events = append(st.events, Event{name: "recv", args: []Val{ch}})
	x.bumpAt(st, "chan.nrecv", ch)
	if in.CommaOk {
		ok := x.c.Fresh("recvok", SBool)
		return VTuple{v, ok}
	}
	return v
}
func (x *Exec) bumpAt(st *State, g string, i *Term) {
	x.wrHeap(st, g, []*Term{i}, SInt, x.c.Add(x.rdHeap(st, g, []*Term{i}, SInt), x.c.Int(1)))
}
func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	x.use(st)
	n := 0
	return x.decode(t, func(suf string, s Sort) *Term {
		n++
		v := x.c.Fresh(name+suf, s)
		return v
	})
}
func (x *Exec) recvVal(st *State, ct *types.Chan, ch *Term) Val {
	v := x.freshVal(st, "recv", ct.Elem())
	if x.hooks.call != nil {
		x.hooks.call(st, "chan.recv", []Val{ch, v}, nil)
	}
	return v
}
func (x *Exec) send(st *State, t types.Type, ch *Term, v Val, pos token.Pos) {
	x.safe(st, "send on a closed channel", pos, x.c.Not(x.rdHeap(st, "chan.closed", []*Term{ch}, SBool)))
	x.bumpAt(st, "chan.sent", ch)
	x.wrHeap(st, "chan.last", []*Term{ch}, SInt, x.payOf(t.Underlying().(*types.Chan).Elem(), v))
	st.events = append(st.events, Event{name: "send", args: []Val{ch, v}})
	if x.hooks.call != nil {
		x.hooks.call(st, "chan.send", []Val{ch, v}, nil)
	}
}

func (x *Exec) selectInstr(st *State, fr *frame, in *ssa.Select, k func(*State, Val)) {
	c := x.c
	var recvT []types.Type
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	mk := func(idx int64, ok *Term, ri int, rv Val) VTuple {
		r := VTuple{c.Int(idx), ok}
		for i, t := range recvT {
			if i == ri {
				r = append(r, rv)
			} else {
				r = append(r, x.zero(t))
			}
		}
		return r
	}
	ri := 0
	choice := c.Fresh("select", SInt)
	n := len(in.States)
	run := func(i int, s *State) {
		x.use(s)
		x.assume(s, c.Eq(choice, c.Int(int64(i))), true)
	}
	for i, ss := range in.States {
		s2 := st.clone()
		run(i, s2)
		x.paths++
		ch := x.val(s2, fr, ss.Chan).(*Term)
		if ss.Dir == types.SendOnly {
			x.send(s2, ss.Chan.Type(), ch, x.val(s2, fr, ss.Send), ss.Pos)
			k(s2, mk(int64(i), c.Bool(false), -1, nil))
			continue
		}
		ct := ss.Chan.Type().Underlying().(*types.Chan)
		v := x.recvVal(s2, ct, ch)
		ok := c.Fresh("recvok", SBool)
		s2.events = append(s2.events, Event{name: "recv", args: []Val{ch, v}})
		x.bumpAt(s2, "chan.nrecv", ch)
		j := ri
		ri++
		k(s2, mk(int64(i), ok, j, v))
	}
	if !in.Blocking {
		s2 := st.clone()
		run(n, s2)
		s2.events = append(s2.events, Event{name: "default"})
		if x.hooks.call != nil {
			var chs []Val
			for _, ss := range in.States {
				chs = append(chs, x.val(s2, fr, ss.Chan))
			}
			x.hooks.call(s2, "select.default", chs, nil)
		}
		k(s2, mk(-1, c.Bool(false), -1, nil))
	}
}
