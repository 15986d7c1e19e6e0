package main

// Loops. A loop whose condition is decided is unrolled; any other is summarised: the state at the
// start of an arbitrary iteration it >= 0 is expressed as a closed form of it, obtained by solving
// the recurrences that one symbolic execution of the body yields. A component without a closed
// form is an unconstrained function of it. No bound is put on the number of iterations.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var loopDebug = os.Getenv("GOCV_LOOPS") != ""

type loopTable struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	onBack func(st *State, fr *frame, from *ssa.BasicBlock)
	onExit func(st *State)
	dry    bool
	outer  []*Term
}

func (x *Exec) loops(fn *ssa.Function) *loopTable {
	if lt := x.loopsOf[fn]; lt != nil {
		return lt
	}
	lt := &loopTable{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			m := lt.body[h]
			if m == nil {
				m = map[*ssa.BasicBlock]bool{h: true}
				lt.body[h] = m
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if m[n] {
					continue
				}
				m[n] = true
				stack = append(stack, n.Preds...)
			}
		}
	}
	x.loopsOf[fn] = lt
	return lt
}

const maxUnroll = 70

// headCond evaluates the header's condition in a copy of the state: decided or nil.
func (x *Exec) headCond(st *State, fr *frame, from, h *ssa.BasicBlock) *bool {
	if x.peek != nil {
		return nil
	}
	if len(h.Instrs) == 0 {
		return nil
	}
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	for _, in := range h.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Select, *ssa.Next, *ssa.Go, *ssa.Defer, *ssa.Send:
			if c, ok := in.(*ssa.Call); ok {
				if _, b := c.Call.Value.(*ssa.Builtin); b {
					continue
				}
			}
			return nil
		}
	}
	s2, f2 := st.clone(), fr.clone()
	x.peek = &peekInfo{blk: h, fr: fr.fn}
	old := x.peek
	x.phis(s2, f2, from, h)
	x.instrs(s2, f2, h, firstNonPhi(h))
	r := old.res
	x.peek = nil
	x.use(st)
	return r
}

// tryUnroll runs f; it reports false, with the bookkeeping restored, when f gave up unrolling id.
func (x *Exec) tryUnroll(id *int, f func()) (ok bool) {
	nO, nR, paths, stack, dry, ld, depth := len(x.obls), len(x.reaches), x.paths, len(x.fnStack), x.dry, x.loopDry, x.depth
	nS := len(x.sinks)
	var lens []int
	for _, g := range x.sinks {
		lens = append(lens, len(*g))
	}
	defer func() {
		if e := recover(); e != nil {
			r, is := e.(restartLoop)
			if !is || r.id != id {
				panic(e)
			}
			x.obls, x.reaches, x.paths, x.fnStack = x.obls[:nO], x.reaches[:nR], paths, x.fnStack[:stack]
			x.dry, x.loopDry, x.depth, x.peek = dry, ld, depth, nil
			x.sinks = x.sinks[:nS]
			for i, g := range x.sinks {
				*g = (*g)[:lens[i]]
			}
			ok = false
		}
	}()
	f()
	return true
}

func (x *Exec) enterLoop(st *State, fr *frame, from, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	if !body[from] {
		if r := x.headCond(st, fr, from, h); r != nil {
			id := new(int)
			s2, f2 := st.clone(), fr.clone()
			f2.unroll[h] = &unrolling{id: id, n: 1}
			if x.tryUnroll(id, func() {
				x.phis(s2, f2, from, h)
				x.instrs(s2, f2, h, firstNonPhi(h))
			}) {
				return
			}
			x.use(st)
		}
	} else if u := fr.unroll[h]; u != nil {
		if u.n < maxUnroll {
			if r := x.headCond(st, fr, from, h); r != nil {
				fr.unroll[h] = &unrolling{u.id, u.n + 1}
				x.phis(st, fr, from, h)
				x.instrs(st, fr, h, firstNonPhi(h))
				return
			}
		}
		panic(restartLoop{u.id})
	}
	fr.unroll[h] = nil
	pv := x.phiVals(st, fr, from, h)
	outer := st.its
	name := fmt.Sprintf("%s.%d", fr.fn.Name(), h.Index)
	if len(x.fnStack) <= 1 {
		x.loopNum = 1
		for o := range x.loops(fr.fn).body {
			if o.Index < h.Index {
				x.loopNum++
			}
		}
	}
	x.loop(st, name, pv, func(s *State, vs []Val, back func(*State, []Val), exit func(*State)) {
		f2 := fr.clone()
		lc := &loopCtx{header: h, body: body, outer: outer, dry: x.loopDry > 0 && x.loopDry == x.dry}
		lc.onBack = func(s *State, f3 *frame, from *ssa.BasicBlock) { back(s, x.phiVals(s, f3, from, h)) }
		lc.onExit = exit
		x.setPhis(f2, h, vs)
		f2.loops = append(f2.loops, lc)
		x.instrs(s, f2, h, firstNonPhi(h))
	}, nil)
}

type comp struct {
	key   string
	init  *Term
	get   func(s *State, phis []Val) *Term
	set   func(s *State, t *Term) // nil for phis: set through the phi vector
	phi   int                     // index in the flattened phi vector, -1 otherwise
	cell  int
	cidx  int // leaf index in the cell
	hkey  string
	loc   []*Term // heap location inside hkey (empty: the whole array)
	fam   *Term   // the object allocated by each iteration (its reference, a function of it)
	sym   *Term   // symbol at it
	form  *Term   // closed form at it, nil: opaque
	exact bool
}

// keep is a loop invariant of the contract.
type keep struct {
	cl   clause
	eval func(*State) *Term
	iter bool // speaks about the number of iterations of the function's own loop
}

type backEdge struct {
	cond  *Term // branch conditions of the iteration
	facts []*Term
	st    *State
	phis  []Val
}

// loop runs body from the start of an arbitrary iteration. after is called for exits of loops that
// are not SSA loops (model-level iteration).
func (x *Exec) loop(st0 *State, name string, phis0 []Val, body func(s *State, phis []Val, back func(*State, []Val), exit func(*State)), after func(*State)) {
	c := x.c
	num := x.loopNum
	x.use(st0)
	// nil slices that may grow get a backing of their own
	lazy := func(v Val) Val { return x.lazySlices(st0, v) }
	for i, v := range phis0 {
		phis0[i] = lazy(v)
	}
	for id, v := range st0.cells {
		st0.cells[id] = lazy(v)
	}
	it := c.Fresh("it", SInt)
	c.fresh["loop"]++
	lid := fmt.Sprintf("%s@%d", sanitize(name), c.fresh["loop"])
	x.factRange(it, big.NewInt(0), new(big.Int).Lsh(bigOne, 48))
	its := append(st0.its[:len(st0.its):len(st0.its)], it)
	pcN := len(st0.pc)

	// the components that may change
	var mod []*comp
	modSet := map[string]bool{}
	flatPhis := x.flatten(VTuple(phis0))
	newComp := func(k string, init *Term) *comp {
		cp := &comp{key: k, init: init, phi: -1}
		cp.sym = c.App("lp."+lid+"."+sanitize(k)+"#", init.sort, its...)
		mod = append(mod, cp)
		modSet[k] = true
		return cp
	}
	// start builds the state at iteration it under the current summaries
	start := func() (*State, []Val) {
		s := st0.clone()
		s.its = its
		x.use(s)
		val := func(cp *comp) *Term {
			if cp.form != nil {
				return cp.form
			}
			return cp.sym
		}
		fp := append([]*Term(nil), flatPhis...)
		cells := map[int][]*Term{}
		for _, cp := range mod {
			switch {
			case cp.phi >= 0:
				fp[cp.phi] = val(cp)
			case cp.hkey != "":
				h := s.heap[cp.hkey]
				if h == nil {
					h = st0.heap[cp.hkey]
				}
				if cp.fam != nil {
					// without a closed form: arbitrary, like everything unallocated
					if cp.form != nil {
						r := c.TempBV()
						if w, ok := x.invert(cp.fam, it, r); ok {
							hit := c.And(c.Le(c.Int(0), w), c.Lt(w, it))
							s.heap[cp.hkey] = c.Lam(r, c.Ite(hit, c.Subst(cp.form, it, w), c.Select(h, r)))
						}
					}
				} else if len(cp.loc) == 0 {
					s.heap[cp.hkey] = val(cp)
				} else {
					s.heap[cp.hkey] = c.StoreN(h, cp.loc, val(cp))
				}
			default:
				if cells[cp.cell] == nil {
					cells[cp.cell] = append([]*Term(nil), x.flatten(st0.cells[cp.cell])...)
				}
				cells[cp.cell][cp.cidx] = val(cp)
			}
		}
		for id, ts := range cells {
			s.cells[id] = x.unflatten(st0.cells[id], ts)
		}
		ph := []Val(x.unflatten(VTuple(phis0), fp).(VTuple))
		for _, cp := range mod {
			if cp.form == nil && cp.fam == nil && !cp.sym.sort.isArr() {
				// at the first iteration the component has its initial value
				x.assume(s, c.Or(c.Not(c.Eq(it, c.Int(0))), c.Eq(cp.sym, cp.init)), false)
			}
		}
		for i, v := range phis0 {
			x.typeFacts(s, v, ph[i])
		}
		for id := range cells {
			x.typeFacts(s, st0.cells[id], s.cells[id])
		}
		return s, ph
	}
	run := func() []*backEdge {
		var bs []*backEdge
		s, ph := start()
		n0 := len(s.pc)
		x.dry++
		od := x.loopDry
		x.loopDry = x.dry
		body(s, ph, func(b *State, vs []Val) {
			if b.dead {
				return
			}
			e := &backEdge{st: b, phis: vs}
			var cs []*Term
			for _, p := range b.pc[n0:] {
				if p.branch {
					cs = append(cs, p.t)
				} else {
					e.facts = append(e.facts, p.t)
				}
			}
			x.use(b)
			c.bounds = nil
			e.cond = c.And(cs...)
			bs = append(bs, e)
		}, func(*State) {})
		x.loopDry = od
		x.dry--
		x.use(st0)
		_ = pcN
		return bs
	}
	compVal := func(cp *comp, e *backEdge) *Term {
		switch {
		case cp.phi >= 0:
			return x.flatten(VTuple(e.phis))[cp.phi]
		case cp.hkey != "":
			h := e.st.heap[cp.hkey]
			if cp.fam != nil {
				return c.Select(h, cp.fam)
			}
			return c.SelectN(h, cp.loc)
		default:
			return x.flatten(e.st.cells[cp.cell])[cp.cidx]
		}
	}
	// 1. find what changes
	var bs []*backEdge
	for round := 0; ; round++ {
		if round > 40 {
			x.unsupported("loop %s does not stabilise", name)
		}
		bs = run()
		if len(bs) == 0 {
			break
		}
		grew := false
		for _, e := range bs {
			x.use(e.st)
			fp := x.flatten(VTuple(e.phis))
			for i, t := range fp {
				k := fmt.Sprintf("phi%d", i)
				if t != flatPhis[i] && !modSet[k] {
					newComp(k, flatPhis[i]).phi = i
					grew = true
				}
			}
			var ids []int
			for id := range st0.cells {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				a, b := x.flatten(st0.cells[id]), x.flatten(e.st.cells[id])
				if len(a) != len(b) {
					x.unsupported("local changes shape in loop %s", name)
				}
				for i := range a {
					k := fmt.Sprintf("cell%d.%d", id, i)
					if a[i] != b[i] && !modSet[k] {
						cp := newComp(k, a[i])
						cp.cell, cp.cidx = id, i
						grew = true
					}
				}
			}
			var hk []string
			for k := range e.st.heap {
				hk = append(hk, k)
			}
			sort.Strings(hk)
			for _, k := range hk {
				h0 := st0.heap[k]
				if h0 == nil {
					// first touched inside: its initial value
					h0 = c.Var("H."+sanitize(k), e.st.heap[k].sort)
					st0.heap[k] = h0
				}
				cur := e.st.heap[k]
				grew = x.heapComps(k, h0, cur, mod, its, st0, func(key string, init *Term, loc []*Term) {
					if modSet[key] {
						return
					}
					// a whole-array component replaces its locations
					cp := newComp(key, init)
					cp.hkey, cp.loc = k, loc
					grew = true
				}, func(idx *Term) {
					key := fmt.Sprintf("fam:%s[%d]", k, idx.id)
					if modSet[key] {
						return
					}
					cp := newComp(key, c.Select(h0, idx))
					cp.hkey, cp.fam = k, idx
					grew = true
				}, func() { // drop location components of k
					var keep []*comp
					for _, m := range mod {
						if m.hkey == k && (len(m.loc) > 0 || m.fam != nil) {
							continue
						}
						keep = append(keep, m)
					}
					mod = keep
				}) || grew
			}
		}
		if !grew {
			break
		}
	}
	x.use(st0)
	// 2. solve
	if len(bs) > 0 {
		for round := 0; round < 4; round++ {
			n := x.solveRec(st0, mod, bs, it, compVal)
			if loopDebug {
				for _, cp := range mod {
					fmt.Fprintf(os.Stderr, "loop %s %s: init=%v form=%v\n", name, cp.key, cp.init, cp.form)
					if cp.form == nil {
						for _, e := range bs {
							fmt.Fprintf(os.Stderr, "    back %v  when %v\n", compVal(cp, e), e.cond)
						}
					}
				}
			}
			left := 0
			for _, cp := range mod {
				if cp.form == nil {
					left++
				}
			}
			if left == 0 || n == 0 {
				break
			}
			bs = run()
		}
	}
	// 3. the arbitrary iteration, for real
	s, ph := start()
	x.use(s)
	var earlier func(t, at *Term) *Term
	if len(bs) > 0 {
		// earlier iterations took a back edge
		j := c.TempBV()
		prev := c.Sub(it, c.Int(1))
		inst := func(t, at *Term) *Term {
			m := map[*Term]*Term{it: at}
			for _, cp := range mod {
				if cp.form != nil {
					m[cp.sym] = c.Subst(cp.form, it, at)
				}
			}
			b := c.bounds
			nb := &boundMap{map[*Term]itv{}}
			v, lo := at, big.NewInt(0)
			if at == prev { // used under it >= 1 only
				v, lo = it, big.NewInt(1)
			}
			nb.setLo(v, lo)
			nb.setHi(v, new(big.Int).Lsh(bigOne, 48))
			c.bounds = nb
			r := c.SubstMap(t, m)
			c.bounds = b
			return r
		}
		earlier = inst
		var alts, altsF []*Term
		for _, e := range bs {
			alts = append(alts, e.cond)
			all := []*Term{e.cond}
			for _, f := range e.facts {
				if hasForall(c, f) {
					continue
				}
				for _, k := range conjuncts(f) {
					// large facts (ranges of what the summaries compute) would only burden the solvers
					if dagSize(inst(k, j), 160) < 160 {
						all = append(all, k)
					}
				}
			}
			altsF = append(altsF, c.And(all...))
		}
		ob := c.bounds
		c.bounds = nil
		cond, condF := c.Or(alts...), c.Or(altsF...)
		c.bounds = ob
		// the previous iteration
		x.assume(s, c.Or(c.Le(it, c.Int(0)), inst(condF, prev)), false)
		// simple linear bounds hold already before the first iteration when they hold at -1
		for _, k := range conjuncts(cond) {
			if k.op == "le" {
				p := inst(k, prev)
				if !x.feasible(s, c.And(c.Eq(it, c.Int(0)), c.Not(p))) {
					x.assume(s, p, false)
				}
			}
		}
		x.assume(s, c.Forall(j, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, it)), inst(condF, j))), false)
		for _, cp := range mod {
			if cp.form == nil {
				x.recFact(s, cp, mod, bs, it, compVal, inst)
			}
		}
	}
	x.use(s)
	// exits continue from here; references made in other iterations stay distinct
	mx := s.nref
	for _, e := range bs {
		if e.st.nref > mx {
			mx = e.st.nref
		}
	}
	s.nref = mx
	x.sumFacts(s, mod, it)
	od := x.loopDry
	x.loopDry = 0
	defer func() { x.loopDry = od }()
	// loop invariants given by the contract: hold at entry, are kept by an iteration
	var kept []keep
	if x.peek == nil {
		for _, kp := range x.keeps {
			x.use(st0)
			g := x.guard
			x.guard = nil
			if kp.iter && (len(its) > 1 || len(x.fnStack) > 1) {
				x.guard = g
				continue
			}
			x.iter = c.Int(0)
			x.entry = st0
			x.loopNum = num
			t0 := kp.eval(st0)
			x.use(s)
			x.iter = it
			t := kp.eval(s)
			x.guard = g
			if t == t0 {
				continue
			}
			x.use(st0)
			x.oblige(st0, kp.cl.props, "loop invariant at entry: "+first(kp.cl.label, kp.cl.src), token.NoPos, t0)
			x.use(s)
			x.assume(s, t, false)
			if earlier != nil && c.contains(t, it) && !hasForall(c, t) {
				j := c.TempBV()
				x.assume(s, c.Forall(j, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, it)), earlier(t, j))), false)
			}
			kept = append(kept, kp)
		}
	}
	x.use(s)
	body(s, ph, func(b *State, vs []Val) {
		if b.dead {
			return
		}
		for _, kp := range kept {
			x.use(b)
			g := x.guard
			x.guard = nil
			x.iter = c.Add(it, c.Int(1))
			x.entry = st0
			x.loopNum = num
			t := kp.eval(b)
			x.guard = g
			x.oblige(b, kp.cl.props, "loop invariant kept: "+first(kp.cl.label, kp.cl.src), token.NoPos, t)
		}
	}, func(e *State) {
		e.its = st0.its
		x.use(e)
		if after != nil {
			after(e)
		}
	})
	x.use(st0)
}

// loopFresh: the reference of an object allocated by the current iteration of the loop.
func (x *Exec) loopFresh(r, it *Term) bool {
	if !x.freshRefs[r] || r.op != "lin" {
		return false
	}
	for _, a := range r.args {
		if a == it {
			return true
		}
	}
	return false
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// lazySlices replaces nil slices in v by empty ones over a backing of their own, and notes
// backings that appends may grow.
func (x *Exec) lazySlices(st *State, v Val) Val {
	c := x.c
	switch w := v.(type) {
	case *VSlice:
		if w.arr.isInt() && w.arr.n.Sign() == 0 {
			r := x.newRef()
			x.zeroSlice(st, w.elem, r)
			x.wrHeap(st, "$frontier", []*Term{r}, SInt, c.Int(0))
			x.lazyNil[r] = true
			x.growing[r] = true
			return &VSlice{w.elem, r, c.Int(0), c.Int(0), c.Int(0)}
		}
		fr := x.rdHeap(st, "$frontier", []*Term{w.arr}, SInt)
		if c.Eq(fr, c.Add(w.off, w.len)).isTrue() {
			x.growing[w.arr] = true
		}
	case *VStruct:
		n := &VStruct{w.typ, append([]Val(nil), w.fields...)}
		for i := range n.fields {
			n.fields[i] = x.lazySlices(st, n.fields[i])
		}
		return n
	}
	return v
}

// typeFacts attaches the range facts of the types of a value's leaves.
func (x *Exec) typeFacts(st *State, old, v Val) {
	x.use(st)
	if s, ok := v.(*VSlice); ok {
		x.sliceFacts(s)
	}
}

// heapComps compares the heap array of key k at a back edge with its value at loop entry and
// registers the changed locations (or the whole array).
func (x *Exec) heapComps(k string, h0, cur *Term, mod []*comp, its []*Term, st0 *State, add func(key string, init *Term, loc []*Term), addFam func(*Term), dropLocs func()) bool {
	c := x.c
	it := its[len(its)-1]
	// rebuild what start() installed
	whole := false
	for _, m := range mod {
		if m.hkey == k && len(m.loc) == 0 && m.fam == nil {
			whole = true
		}
	}
	if whole {
		return false
	}
	if !cur.sort.isArr() {
		if cur != h0 {
			dup := false
			for _, m := range mod {
				dup = dup || m.hkey == k
			}
			if !dup {
				add("heap:"+k, h0, nil)
				return true
			}
		}
		return false
	}
	// indices written on top of h0
	grew := false
	varying := func(t *Term) bool {
		if c.contains(t, it) {
			return true
		}
		for _, m := range mod {
			if c.contains(t, m.sym) {
				return true
			}
		}
		return false
	}
	var idxs []*Term
	fam := map[*Term]bool{}
	bad := false
	t := cur
	var walk func(t *Term)
	seen := map[*Term]bool{}
	// stores on top of what h0 is built on: overwritten ones are normalised away
	below := map[*Term]bool{h0: true}
	for b := h0; b.op == "store"; b = b.args[0] {
		below[b.args[0]] = true
	}
	walk = func(t *Term) {
		if below[t] || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "store":
			if x.loopFresh(t.args[1], it) {
				// an object of this iteration
				fam[t.args[1]] = true
				walk(t.args[0])
				return
			}
			if varying(t.args[1]) {
				bad = true
				return
			}
			idxs = append(idxs, t.args[1])
			walk(t.args[0])
		case "ite":
			walk(t.args[1])
			walk(t.args[2])
		default:
			bad = true
		}
	}
	walk(t)
	if bad && loopDebug {
		fmt.Fprintf(os.Stderr, "whole %s: %v\n   h0 %v\n", k, cur, h0)
	}
	if bad {
		has := false
		for _, m := range mod {
			if m.hkey == k {
				has = true
			}
		}
		if has {
			dropLocs()
		}
		add("heap:"+k, h0, nil)
		return true
	}
	var fs []*Term
	for i := range fam {
		fs = append(fs, i)
	}
	sort.Slice(fs, func(a, b int) bool { return fs[a].id < fs[b].id })
	for _, i := range fs {
		addFam(i)
	}
	for _, i := range idxs {
		dup := false
		for _, m := range mod {
			if m.hkey == k && len(m.loc) == 1 && m.loc[0] == i {
				dup = true
			}
		}
		if dup {
			continue
		}
		v0 := c.Select(h0, i)
		if c.Select(cur, i) == v0 {
			continue
		}
		add(fmt.Sprintf("heap:%s[%d]", k, i.id), v0, []*Term{i})
		grew = true
	}
	return grew
}

// ---------- recurrences ----------

func (x *Exec) solveRec(st0 *State, mod []*comp, bs []*backEdge, it *Term, compVal func(*comp, *backEdge) *Term) int {
	c := x.c
	ob := c.bounds
	defer func() { c.bounds = ob }()
	// facts valid at every iteration may simplify; only the entry facts are used here
	type pv struct{ cond, val *Term }
	vals := map[*comp][]pv{}
	for _, cp := range mod {
		if cp.form != nil || x.opaque[cp.hkey] {
			continue
		}
		for _, e := range bs {
			c.bounds = e.st.bounds
			v := compVal(cp, e)
			c.bounds = st0.bounds
			vals[cp] = append(vals[cp], pv{e.cond, v})
		}
	}
	c.bounds = st0.bounds
	solved := 0
	for progress := true; progress; {
		progress = false
		for _, cp := range mod {
			if cp.form != nil || x.opaque[cp.hkey] {
				continue
			}
			sub := map[*Term]*Term{}
			for _, m := range mod {
				if m.form != nil {
					sub[m.sym] = m.form
				}
			}
			open := func(t *Term) bool { // mentions an unsolved symbol
				for _, m := range mod {
					if m.form == nil && c.contains(t, m.sym) {
						return true
					}
				}
				return false
			}
			// an array written at a place of each iteration's own still holds its initial value there
			own := func(sub map[*Term]*Term, raw bool) map[*Term]*Term {
				ownSub := map[*Term]*Term{}
				for _, m := range mod {
					if m.form != nil && !raw || m.fam != nil || x.opaque[m.hkey] || !m.sym.sort.isArr() || !strings.HasPrefix(string(m.sym.sort), "(Array Int ") {
						continue
					}
					var p *Term
					ok := true
					for _, v := range vals[m] {
						t := c.SubstMap(v.val, sub)
						for ok && t.op == "store" {
							if p == nil {
								p = t.args[1]
							}
							ok = t.args[1] == p
							t = t.args[0]
						}
						ok = ok && t == m.sym
					}
					if !ok || p == nil || open(p) {
						continue
					}
					if raw {
						for _, o := range mod {
							ok = ok && !c.contains(p, o.sym)
						}
						if !ok {
							continue
						}
					}
					if _, inj := x.invert(p, it, c.TempBV()); inj {
						ownSub[c.Select(m.sym, p)] = c.Select(m.init, p)
					}
				}
				return ownSub
			}
			rawOwn := own(nil, true)
			ownSub := own(sub, false)
			var ps []pv
			for _, p := range vals[cp] {
				k, v := p.cond, p.val
				if len(rawOwn) > 0 {
					k, v = c.SubstMap(k, rawOwn), c.SubstMap(v, rawOwn)
				}
				k, v = c.SubstMap(k, sub), c.SubstMap(v, sub)
				if len(ownSub) > 0 {
					k, v = c.SubstMap(k, ownSub), c.SubstMap(v, ownSub)
				}
				ps = append(ps, pv{k, v})
			}
			conds := make([]*Term, len(ps))
			vs := make([]*Term, len(ps))
			for i, p := range ps {
				conds[i], vs[i] = p.cond, p.val
			}
			conds = x.factored(conds)
			if cp.fam != nil {
				ok := true
				for i := range vs {
					ok = ok && !open(vs[i]) && (len(vs) == 1 || allSame(vs) || !open(conds[i]))
				}
				if ok {
					cp.form = x.merge(conds, vs)
					progress = true
					solved++
				}
				continue
			}
			if f := x.solveOne(st0, cp, conds, vs, it, open); f != nil {
				cp.form = f
				progress = true
				solved++
			}
		}
	}
	return solved
}

// dagSize counts the distinct subterms of t, up to lim.
func dagSize(t *Term, lim int) int {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if len(seen) >= lim || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return len(seen)
}

// factored drops the conjuncts all the back edges share: every earlier iteration took one of them.
func (x *Exec) factored(conds []*Term) []*Term {
	if len(conds) == 1 {
		return []*Term{x.c.Bool(true)}
	}
	n := map[*Term]int{}
	for _, d := range conds {
		for _, k := range conjuncts(d) {
			n[k]++
		}
	}
	out := make([]*Term, len(conds))
	for i, d := range conds {
		var ks []*Term
		for _, k := range conjuncts(d) {
			if n[k] < len(conds) {
				ks = append(ks, k)
			}
		}
		out[i] = x.c.And(ks...)
	}
	return out
}

// merge builds the case distinction over the paths.
func (x *Exec) merge(conds, vs []*Term) *Term {
	c := x.c
	same := true
	for _, v := range vs {
		same = same && v == vs[0]
	}
	if same {
		return vs[0]
	}
	// two values, one of them on one path
	if len(vs) > 2 {
		var a, b *Term
		na, ia, nb, ib := 0, 0, 0, 0
		two := true
		for i, v := range vs {
			switch {
			case a == nil || v == a:
				a, na, ia = v, na+1, i
			case b == nil || v == b:
				b, nb, ib = v, nb+1, i
			default:
				two = false
			}
		}
		if two && na == 1 {
			return c.Ite(conds[ia], a, b)
		}
		if two && nb == 1 {
			return c.Ite(conds[ib], b, a)
		}
	}
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = c.Ite(conds[i], vs[i], r)
	}
	return r
}

func (x *Exec) solveOne(st0 *State, cp *comp, conds, vs []*Term, it *Term, open func(*Term) bool) *Term {
	c := x.c
	X := cp.sym
	n := len(vs)
	if x.merging {
		conds, vs = x.splitIte(conds, vs)
		n = len(vs)
	}
	same := true
	for _, v := range vs {
		same = same && v == X
	}
	if same {
		return cp.init
	}
	condsOpen := false
	for i, k := range conds {
		// conditions matter only when the values differ
		if n > 1 && open(k) {
			condsOpen = true
		}
		_ = i
	}
	at := func(t *Term, j *Term) *Term { return c.Subst(t, it, j) }
	sum := func(d *Term) *Term {
		if !c.contains(d, it) {
			if d.isInt() {
				return c.Scale(it, d.n)
			}
			return c.Mul(it, d)
		}
		j := c.TempBV()
		return c.Sum(j, c.Int(0), it, at(d, j))
	}
	if !X.sort.isArr() && X.sort == SInt {
		// additive
		ds := make([]*Term, n)
		ok := true
		for i, v := range vs {
			ds[i] = c.Sub(v, X)
			ok = ok && !open(ds[i])
		}
		if ok {
			d := x.merge(conds, ds)
			if !(condsOpen && !allSame(ds)) {
				return c.Add(cp.init, sum(d))
			}
		}
		// additive modulo the word size
		kind := ""
		ok = true
		for i, v := range vs {
			switch {
			case v == X:
				ds[i] = c.Int(0)
			case v.op == "wrap":
				if kind == "" {
					kind = v.name
				}
				ok = ok && kind == v.name
				ds[i] = c.Sub(v.args[0], X)
				ok = ok && !open(ds[i])
			default:
				ds[i] = c.Sub(v, X)
				ok = ok && !open(ds[i])
			}
		}
		if ok && kind != "" && !(condsOpen && !allSame(ds)) {
			return c.Wrap(kind, c.Add(cp.init, sum(x.merge(conds, ds))))
		}
		// modular counter: X' = (X+k) & m
	}
	if X.sort.isArr() {
		if f := x.solveArr(st0, cp, conds, vs, it, open); f != nil {
			return f
		}
	}
	// last value
	ok := true
	for _, v := range vs {
		ok = ok && !open(v)
	}
	if ok && (!condsOpen || allSame(vs)) {
		m := x.merge(conds, vs)
		if m == cp.init {
			return m
		}
		if !c.contains(m, it) && m.sort == cp.init.sort {
			return c.Ite(c.Le(it, c.Int(0)), cp.init, m)
		}
		return c.Ite(c.Le(it, c.Int(0)), cp.init, at(m, c.Sub(it, c.Int(1))))
	}
	// walking a list: X' = next(X)
	if n == 1 && vs[0].op == "app" && vs[0].name == "list.next" && vs[0].args[0] == X && cp.init.op == "app" && cp.init.name == "inj.lnode" {
		l, i0 := cp.init.args[0], cp.init.args[1]
		end := c.Add(c.SelectN(x.heapArr(st0, "$lstart", 1, SInt), []*Term{l}), c.SelectN(x.heapArr(st0, "$llen", 1, SInt), []*Term{l}))
		i := c.Add(i0, it)
		nd := c.App("inj.lnode", SInt, l, i)
		x.factRange(nd, big.NewInt(1<<50), new(big.Int).Lsh(bigOne, 60))
		return c.Ite(c.Lt(i, end), nd, c.Int(0))
	}
	// a value set on some iterations and kept on the others: the same value each time
	if !condsOpen {
		var v0 *Term
		var set []*Term
		ok = true
		for i, v := range vs {
			if v == X {
				continue
			}
			if v0 == nil {
				v0 = v
			}
			ok = ok && v == v0 && !open(v) && !c.contains(v, it)
			set = append(set, conds[i])
		}
		if ok && v0 != nil {
			hits := sum(c.Ite(c.Or(set...), c.Int(1), c.Int(0)))
			return c.Ite(c.Le(c.Int(1), hits), v0, cp.init)
		}
	}
	return nil
}

// splitIte turns case distinctions into separate alternatives and joins those of equal value.
func (x *Exec) splitIte(conds, vs []*Term) ([]*Term, []*Term) {
	c := x.c
	var order []*Term
	by := map[*Term][]*Term{}
	n := 0
	var add func(k, v *Term)
	add = func(k, v *Term) {
		if k.isFalse() {
			return
		}
		var q, a, b *Term
		switch {
		case n > 40:
		case v.op == "ite":
			q, a, b = v.args[0], v.args[1], v.args[2]
		case v.op == "store" && v.args[2].op == "ite":
			w := v.args[2]
			q, a, b = w.args[0], c.Store(v.args[0], v.args[1], w.args[1]), c.Store(v.args[0], v.args[1], w.args[2])
			for _, p := range []**Term{&a, &b} {
				if t := *p; t.op == "store" && t.args[2] == c.Select(t.args[0], t.args[1]) {
					*p = t.args[0]
				}
			}
		}
		if q != nil {
			n++
			add(c.And(k, q), a)
			add(c.And(k, c.Not(q)), b)
			return
		}
		if by[v] == nil {
			order = append(order, v)
		}
		by[v] = append(by[v], k)
	}
	for i := range vs {
		add(conds[i], vs[i])
	}
	if n == 0 {
		return conds, vs
	}
	var cs []*Term
	for _, v := range order {
		cs = append(cs, c.disj(by[v]))
	}
	return cs, order
}

func allSame(ts []*Term) bool {
	for _, t := range ts {
		if t != ts[0] {
			return false
		}
	}
	return true
}

// invert solves p(it) == r for it: the candidate and the condition under which it is the solution.
func (x *Exec) invert(p, it, r *Term) (*Term, bool) {
	c := x.c
	if p == it {
		return r, true
	}
	switch p.op {
	case "lin":
		// one argument depends on it
		var dep *Term
		var co *big.Int
		for i, a := range p.args {
			if c.contains(a, it) {
				if dep != nil {
					return nil, false
				}
				dep, co = a, p.coefs[i]
			}
		}
		if dep == nil || co.CmpAbs(bigOne) != 0 {
			return nil, false
		}
		rest := c.Sub(p, c.Scale(dep, co))
		if co.Sign() > 0 {
			return x.invert(dep, it, c.Sub(r, rest))
		}
		return x.invert(dep, it, c.Sub(rest, r))
	case "app":
		if strings.HasPrefix(p.name, "mkey#") {
			n := len(p.args) - 1
			args := append(append([]*Term(nil), p.args[:n]...), r)
			for _, a := range p.args[:n] {
				if c.contains(a, it) {
					return nil, false
				}
			}
			return x.invert(p.args[n], it, c.App("mpos#"+p.name[5:], SInt, args...))
		}
		if strings.HasPrefix(p.name, "inj.") {
			for i, a := range p.args {
				if c.contains(a, it) {
					return x.invert(a, it, c.App(fmt.Sprintf("prj%d.%s", i, p.name), a.sort, r))
				}
			}
		}
		if strings.HasPrefix(p.name, "sel") && strings.HasSuffix(p.name, "#") {
			for _, f := range x.filters {
				if f.name == p.name && len(f.its) == 0 && len(p.args) == 1 && !c.contains(f.cnt, it) {
					return x.invert(p.args[0], it, c.Subst(f.cnt, f.it, r))
				}
			}
		}
		if inv, ok := x.inverse[p.name]; ok && len(p.args) == 1 {
			return x.invert(p.args[0], it, c.App(inv, SInt, r))
		}
	case "select":
		if inv := x.inverseOf(p.args[0]); inv != "" && !c.contains(p.args[0], it) {
			return x.invert(p.args[1], it, c.App(inv, SInt, r))
		}
	case "sum":
		// counting sums are inverted by a selector function
		return nil, false
	}
	return nil, false
}

// inverseOf: contracts may declare an array injective on its domain by naming its inverse.
func (x *Exec) inverseOf(a *Term) string {
	b := a
	for b.op == "select" {
		b = b.args[0]
	}
	if b.op == "var" {
		return x.inverse[b.name]
	}
	return ""
}

func (x *Exec) solveArr(st0 *State, cp *comp, conds, vs []*Term, it *Term, open func(*Term) bool) *Term {
	c := x.c
	X := cp.sym
	type wr struct{ cond, idx, val *Term }
	var ws []wr
	unchanged := []*Term{}
	for i, v := range vs {
		if v == X {
			unchanged = append(unchanged, conds[i])
			continue
		}
		// an array built anew from X by a store chain
		t := v
		var chain []wr
		for t.op == "store" {
			chain = append(chain, wr{conds[i], t.args[1], t.args[2]})
			t = t.args[0]
		}
		if t != X || len(chain) != 1 {
			return nil
		}
		ws = append(ws, chain[0])
	}
	if len(ws) == 0 {
		return nil
	}
	p := ws[0].idx
	for _, w := range ws {
		if w.idx != p {
			return nil
		}
	}
	if open(p) {
		return nil
	}
	var wc []*Term
	var wv []*Term
	for _, w := range ws {
		if len(vs) > 1 && open(w.cond) {
			// the condition may read the location itself
			own := c.Select(X, p)
			if k := c.Subst(w.cond, own, c.Var("$own", own.sort)); open(k) {
				return nil
			}
		}
		wc = append(wc, w.cond)
		wv = append(wv, w.val)
	}
	val := x.merge(wc, wv)
	written := c.Bool(true)
	if len(unchanged) > 0 {
		written = c.Or(wc...)
	}
	own := c.Select(X, p)
	h0 := cp.init
	// a merged conditional write
	for val.op == "ite" && (val.args[1] == own || val.args[2] == own) {
		if val.args[1] == own {
			written, val = c.And(written, c.Not(val.args[0])), val.args[2]
		} else {
			written, val = c.And(written, val.args[0]), val.args[1]
		}
	}
	ownV := c.Var("$own", own.sort)
	valG := c.Subst(val, own, ownV) // val as a function of the old element
	wrG := c.Subst(written, own, ownV)
	if open(valG) || open(wrG) {
		return nil
	}
	r := c.TempBV()
	// pointwise, injective index
	if w, ok := x.invert(p, it, r); ok {
		old := c.Select(h0, r)
		at := func(t *Term) *Term { return c.SubstMap(t, map[*Term]*Term{it: w, ownV: old}) }
		hit := c.And(c.Le(c.Int(0), w), c.Lt(w, it), c.Eq(c.Subst(p, it, w), r), at(wrG))
		return c.Lam(r, c.Ite(hit, at(valG), old))
	}
	// filtered append: the index counts the iterations that wrote
	if p.op == "sum" || p.op == "lin" || p.op == "ite" {
		if f := x.filtered(st0, cp, p, it, r, valG, wrG, ownV); f != nil {
			return f
		}
	}
	// accumulation: every write adds to the element
	var d *Term
	kind := ""
	if valG.op == "wrap" {
		kind = valG.name
		d = c.Sub(valG.args[0], ownV)
	} else if valG.sort == SInt {
		d = c.Sub(valG, ownV)
	}
	if d != nil && !c.contains(d, ownV) && !c.contains(wrG, ownV) {
		j := c.TempBV()
		at := func(t *Term) *Term { return c.Subst(t, it, j) }
		s := c.Sum(j, c.Int(0), it, c.Ite(c.And(at(wrG), c.Eq(at(p), r)), at(d), c.Int(0)))
		e := c.Add(c.Select(h0, r), s)
		if kind != "" {
			e = c.Wrap(kind, e)
		}
		return c.Lam(r, e)
	}
	// a constant stored at varying places
	if !c.contains(valG, it) && !c.contains(valG, ownV) && !c.contains(wrG, ownV) {
		j := c.TempBV()
		at := func(t *Term) *Term { return c.Subst(t, it, j) }
		s := c.Sum(j, c.Int(0), it, c.Ite(c.And(at(wrG), c.Eq(at(p), r)), c.Int(1), c.Int(0)))
		return c.Lam(r, c.Ite(c.Le(c.Int(1), s), valG, c.Select(h0, r)))
	}
	return nil
}

// filtered: writes happen at base + (number of earlier writes). sel#(q) is the iteration of the
// q-th write.
func (x *Exec) filtered(st0 *State, cp *comp, p, it, r, valG, wrG, ownV *Term) *Term {
	c := x.c
	if c.contains(wrG, ownV) || c.contains(valG, ownV) {
		return nil
	}
	j := c.TempBV()
	cnt := c.Sum(j, c.Int(0), it, c.Ite(c.Subst(wrG, it, j), c.Int(1), c.Int(0)))
	base := c.Sub(p, cnt)
	if c.contains(base, it) {
		return nil
	}
	f := x.filterOf(st0, cnt, it, wrG)
	q := c.Sub(r, base)
	w := f.sel(q)
	hit := c.And(c.Le(c.Int(0), q), c.Lt(q, cnt))
	return c.Lam(r, c.Ite(hit, c.Subst(valG, it, w), c.Select(cp.init, r)))
}

func open2(c *Ctx, cond, it *Term) bool { return false }

type filter struct {
	c    *Ctx
	name string
	its  []*Term
	it   *Term
	cnt  *Term
	cond *Term
}

func (f *filter) sel(q *Term) *Term {
	return f.c.App(f.name, SInt, append(append([]*Term(nil), f.its...), q)...)
}

// filterOf returns the selector of the iterations (of counter it) where cond holds.
func (x *Exec) filterOf(st0 *State, cnt, it, cond *Term) *filter {
	c := x.c
	key := fmt.Sprintf("%d/%d", cnt.id, it.id)
	if f := x.filters[key]; f != nil {
		return f
	}
	f := &filter{c: c, name: fmt.Sprintf("sel%d#", x.nfilter), its: st0.its, it: it, cnt: cnt, cond: cond}
	x.nfilter++
	x.filters[key] = f
	if len(f.its) == 0 {
		c.selSums = append(c.selSums, func(t *Term) *Term {
			bv := c.BV(t.name)
			q := c.Sub(bv, t.args[0])
			sel := f.sel(q)
			if c.Sub(t.args[1], t.args[0]) != cnt || !c.contains(t.args[2], sel) {
				return nil
			}
			j := c.TempBV()
			ob := c.bounds
			c.bounds = nil
			yes := c.Bool(true)
			body := c.SubstMap(t.args[2], map[*Term]*Term{sel: j, c.Le(c.Int(0), q): yes, c.Lt(q, cnt): yes})
			c.bounds = ob
			if c.contains(body, bv) {
				return nil
			}
			hit := c.Subst(cond, it, j)
			if body.op == "ite" && body.args[2] == c.Int(0) {
				hit, body = c.And(hit, body.args[0]), body.args[1]
			}
			return c.Sum(j, c.Int(0), it, c.Ite(hit, body, c.Int(0)))
		})
	}
	if len(f.its) == 0 && !open2(c, cond, it) {
		z := c.Int(0)
		c.rules[f.name] = func(w *Term) *Term {
			q := w.args[0]
			return c.Imp(c.And(c.Le(z, q), c.Lt(q, f.cnt)),
				c.And(c.Le(z, w), c.Lt(w, it), c.Subst(cond, it, w), c.Eq(c.Subst(cnt, it, w), q)))
		}
		for _, e := range x.enums {
			if len(e.its) > 0 || !c.contains(cond, e.key(it)) {
				continue
			}
			pn := fmt.Sprintf("mpos#%d", e.id)
			c.posRules[pn] = append(c.posRules[pn], posRule{f.name, func(j *Term) *Term {
				at := c.Subst(cnt, it, j)
				return c.Imp(c.And(c.Le(z, j), c.Lt(j, it), c.Subst(cond, it, j)),
					c.And(c.Le(z, at), c.Lt(at, cnt), c.Eq(f.sel(at), j)))
			}})
		}
	}
	return f
}

// sumFacts adds the defining facts of the selectors used in the summaries at iteration it.
func (x *Exec) sumFacts(st *State, mod []*comp, it *Term) {
	c := x.c
	x.use(st)
	for _, f := range x.filters {
		if f.it != it {
			continue
		}
		z := c.Int(0)
		q := c.TempBV()
		cntAt := func(t *Term) *Term { return c.Subst(f.cnt, it, t) }
		condAt := func(t *Term) *Term { return c.Subst(f.cond, it, t) }
		w := f.sel(q)
		x.assume(st, c.Forall(q, c.Imp(c.And(c.Le(z, q), c.Lt(q, f.cnt)),
			c.And(c.Le(z, w), c.Lt(w, it), condAt(w), c.Eq(cntAt(w), q)))), false)
		// cnt(j) for j<it with cond(j) is a valid position whose selector is j
		j := c.TempBV()
		x.assume(st, c.Forall(j, c.Imp(c.And(c.Le(z, j), c.Lt(j, it), condAt(j)),
			c.And(c.Le(z, cntAt(j)), c.Lt(cntAt(j), f.cnt), c.Eq(f.sel(cntAt(j)), j)))), false)
		// the selector is increasing
		q2 := c.TempBV()
		x.assume(st, c.Forall(q, c.Forall(q2, c.Imp(c.And(c.Le(z, q), c.Lt(q, q2), c.Lt(q2, f.cnt)), c.Lt(f.sel(q), f.sel(q2))))), false)
		x.assume(st, c.And(c.Le(z, f.cnt), c.Le(f.cnt, it)), false)
	}
}

// recFact states the recurrence of a component without closed form.
func (x *Exec) recFact(s *State, cp *comp, mod []*comp, bs []*backEdge, it *Term, compVal func(*comp, *backEdge) *Term, inst func(t, at *Term) *Term) {
	c := x.c
	var conds, vs []*Term
	for _, e := range bs {
		conds = append(conds, e.cond)
		vs = append(vs, compVal(cp, e))
	}
	if cp.sym.sort.isArr() || cp.fam != nil || x.opaque[cp.hkey] {
		return
	}
	x.use(s)
	j := c.TempBV()
	v := x.merge(conds, vs)
	ob := c.bounds
	c.bounds = nil
	next := c.Subst(cp.sym, it, c.Add(j, c.Int(1)))
	f := c.Forall(j, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, it)), c.Eq(next, inst(v, j))))
	c.bounds = ob
	x.assume(s, f, false)
	// and its last instance
	prev := c.Sub(it, c.Int(1))
	x.assume(s, c.Or(c.Le(it, c.Int(0)), c.Eq(cp.sym, inst(v, prev))), false)
}

var _ = types.Typ
