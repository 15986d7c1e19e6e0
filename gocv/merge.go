package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// State merging (option merge): the paths through a conditional meet again at its immediate
// post-dominator, and the paths through an inlined call at its return, as one state whose values
// are case distinctions. Paths that cannot be joined go on separately.

type join struct {
	blk   *ssa.BasicBlock
	loops int
	got   *[]arrival
}

type arrival struct {
	st   *State
	fr   *frame
	from *ssa.BasicBlock
	vals []Val
}

// ipdom is the block where all paths from b meet again, inside the loop b belongs to.
func (x *Exec) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if x.pdoms == nil {
		x.pdoms = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	m := x.pdoms[fn]
	if m == nil {
		m = postDominators(fn)
		x.pdoms[fn] = m
	}
	return m[b]
}

func postDominators(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// sets of post-dominators, nil meaning all (blocks that never reach an exit)
	full := make([]bool, n)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = make([]bool, n)
			pd[i][i] = true
		} else {
			pd[i] = append([]bool(nil), full...)
		}
	}
	// panicking exits do not count
	isPanic := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			cur := append([]bool(nil), full...)
			any := false
			for _, s := range b.Succs {
				if isPanic(s) {
					continue
				}
				any = true
				for k := range cur {
					cur[k] = cur[k] && pd[s.Index][k]
				}
			}
			if !any {
				cur = make([]bool, n)
			}
			cur[i] = true
			for k := range cur {
				if cur[k] != pd[i][k] {
					pd[i], ch = cur, true
					break
				}
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the closest: the one whose post-dominators are all the others
		var best *ssa.BasicBlock
		cnt := -1
		for k, v := range pd[i] {
			if !v || k == i {
				continue
			}
			m := 0
			for _, w := range pd[k] {
				if w {
					m++
				}
			}
			if m > cnt {
				best, cnt = fn.Blocks[k], m
			}
		}
		r[b] = best
	}
	return r
}

// forkJoin explores both sides of a conditional and goes on once where they meet.
func (x *Exec) forkJoin(st *State, fr *frame, cond *Term, b *ssa.BasicBlock) bool {
	if cond.isTrue() || cond.isFalse() {
		return false
	}
	j := x.ipdom(b)
	if j == nil {
		return false
	}
	lt := x.loops(fr.fn)
	if _, ok := lt.body[j]; ok {
		return false
	}
	if n := len(fr.loops); n > 0 {
		if !fr.loops[n-1].body[j] {
			return false
		}
	}
	// the conditional controls a loop: leave it alone
	if body, ok := lt.body[b]; ok && (body[b.Succs[0]] != body[b.Succs[1]]) {
		return false
	}
	base := st.clone()
	fr0 := fr.clone()
	var got []arrival
	fr1 := fr.clone()
	fr1.joins = append(fr.joins[:len(fr.joins):len(fr.joins)], join{j, len(fr.loops), &got})
	fr2 := fr1.clone()
	stack := x.fnStack
	x.sinks = append(x.sinks, &got)
	x.fork(st, cond, func(s *State) { x.jump(s, fr1, b, b.Succs[0]) }, func(s *State) { x.jump(s, fr2, b, b.Succs[1]) })
	var live []arrival
	x.sinks = x.sinks[:len(x.sinks)-1]
	for _, a := range got {
		if !a.st.dead {
			x.use(a.st)
			if a.from == nil {
				live = append(live, a)
				continue
			}
			a.vals = x.phiVals(a.st, a.fr, a.from, j)
			live = append(live, a)
		}
	}
	x.fnStack = stack
	if len(live) > 1 {
		if m, vs := x.mergeStates(base, live); m != nil {
			same := true
			for _, a := range live {
				same = same && len(a.fr.defers) == len(fr0.defers)
			}
			if same {
				x.use(m)
				fr0.joins = fr.joins
				x.setPhis(fr0, j, vs)
				x.atBlock(m, fr0, j)
				x.fnStack = stack
				return true
			}
		}
	}
	for _, a := range live {
		x.use(a.st)
		x.fnStack = stack
		a.fr.joins = fr.joins
		x.setPhis(a.fr, j, a.vals)
		x.atBlock(a.st, a.fr, j)
	}
	x.fnStack = stack
	return true
}

// atBlock continues at the first instruction of a block whose phis are set; an enclosing join may
// end here as well.
func (x *Exec) atBlock(st *State, fr *frame, b *ssa.BasicBlock) {
	if n := len(fr.joins); n > 0 && fr.joins[n-1].blk == b && fr.joins[n-1].loops == len(fr.loops) {
		var vs []Val
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				vs = append(vs, fr.regs[ph])
			}
		}
		*fr.joins[n-1].got = append(*fr.joins[n-1].got, arrival{st: st, fr: fr, vals: vs})
		return
	}
	x.instrs(st, fr, b, firstNonPhi(b))
}

// mergeStates joins states that share the prefix base.
func (x *Exec) mergeStates(base *State, as []arrival) (*State, []Val) {
	c := x.c
	n0 := len(base.pc)
	var ds []*Term
	for _, a := range as {
		s := a.st
		if len(s.events) != len(base.events) || s.nspawn != base.nspawn || s.lock != base.lock || len(s.its) != len(base.its) {
			return nil, nil
		}
		var cs []*Term
		for _, p := range s.pc[n0:] {
			if p.branch {
				cs = append(cs, p.t)
			}
		}
		ob := c.bounds
		c.bounds = nil
		ds = append(ds, c.And(cs...))
		c.bounds = ob
	}
	m := base.clone()
	x.use(m)
	c.bounds = nil
	defer func() { x.use(m) }()
	for _, a := range as {
		if a.st.nref > m.nref {
			m.nref = a.st.nref
		}
		for k, v := range a.st.fresh {
			if v > m.fresh[k] {
				m.fresh[k] = v
			}
		}
	}
	// conditions: later alternatives are the default of earlier ones
	pick := func(vs []*Term) *Term {
		var order []*Term
		conds := map[*Term][]*Term{}
		for i, v := range vs {
			if conds[v] == nil {
				order = append(order, v)
			}
			conds[v] = append(conds[v], ds[i])
		}
		r := order[len(order)-1]
		for i := len(order) - 2; i >= 0; i-- {
			r = c.Ite(c.disj(conds[order[i]]), order[i], r)
		}
		return r
	}
	ok := true
	// heap
	keys := map[string]Sort{}
	for _, a := range as {
		for k, h := range a.st.heap {
			keys[k] = h.sort
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var hs []*Term
		for _, a := range as {
			h := a.st.heap[k]
			if h == nil {
				h = c.Var("H."+sanitize(k), keys[k])
			}
			hs = append(hs, h)
		}
		m.heap[k] = x.mergeArr(hs, pick)
	}
	// cells
	for id, v0 := range as[0].st.cells {
		vs := []Val{v0}
		for _, a := range as[1:] {
			if v, in := a.st.cells[id]; in {
				vs = append(vs, v)
			}
		}
		if len(vs) < len(as) {
			continue // a local of one side
		}
		v, good := x.mergeVals(vs, pick)
		if !good {
			ok = false
			break
		}
		m.cells[id] = v
	}
	for _, a := range as[1:] {
		for id, v := range a.st.cells {
			if _, in := m.cells[id]; !in {
				m.cells[id] = v
			}
		}
	}
	for id, v := range as[0].st.cells {
		if _, in := m.cells[id]; !in {
			m.cells[id] = v
		}
	}
	if !ok {
		return nil, nil
	}
	// results
	var out []Val
	for i := range as[0].vals {
		var vs []Val
		for _, a := range as {
			vs = append(vs, a.vals[i])
		}
		v, good := x.mergeVals(vs, pick)
		if !good {
			return nil, nil
		}
		out = append(out, v)
	}
	// facts
	for t := range as[0].st.bounds.m {
		h, all := as[0].st.bounds.m[t], true
		for _, a := range as[1:] {
			b, in := a.st.bounds.m[t]
			if !in {
				all = false
				break
			}
			if h.lo != nil && (b.lo == nil || b.lo.Cmp(h.lo) < 0) {
				h.lo = b.lo
			}
			if h.hi != nil && (b.hi == nil || b.hi.Cmp(h.hi) > 0) {
				h.hi = b.hi
			}
		}
		if all && (h.lo != nil || h.hi != nil) {
			if h.lo != nil {
				m.bounds.setLo(t, h.lo)
			}
			if h.hi != nil {
				m.bounds.setHi(t, h.hi)
			}
		}
	}
	x.assume(m, c.disj(ds), true)
	for i, a := range as {
		for _, p := range a.st.pc[n0:] {
			if p.branch {
				continue
			}
			all := true
			for k, b := range as {
				if k != i && !b.st.pcset[p.t] {
					all = false
				}
			}
			if all {
				x.assume(m, p.t, false)
			} else {
				c.bounds = nil
				x.assume(m, c.Imp(ds[i], p.t), false)
			}
		}
	}
	if m.dead {
		return nil, nil
	}
	return m, out
}

// mergeArr joins arrays (or scalars): where they are stores over a common array, index by index.
func (x *Exec) mergeArr(hs []*Term, pick func([]*Term) *Term) *Term {
	c := x.c
	same := true
	for _, h := range hs[1:] {
		same = same && h == hs[0]
	}
	if same {
		return hs[0]
	}
	if !hs[0].sort.isArr() {
		return pick(hs)
	}
	// the common array
	var root *Term
	on := map[*Term]int{}
	for _, h := range hs {
		for t := h; ; t = t.args[0] {
			on[t]++
			if on[t] == len(hs) && root == nil {
				root = t
			}
			if t.op != "store" {
				break
			}
		}
	}
	if root == nil {
		return pick(hs)
	}
	var idx []*Term
	seen := map[*Term]bool{}
	for _, h := range hs {
		var chain []*Term
		for t := h; t != root; t = t.args[0] {
			chain = append(chain, t.args[1])
		}
		for i := len(chain) - 1; i >= 0; i-- {
			if !seen[chain[i]] {
				seen[chain[i]] = true
				idx = append(idx, chain[i])
			}
		}
	}
	r := root
	for _, i := range idx {
		var vs []*Term
		for _, h := range hs {
			vs = append(vs, c.Select(h, i))
		}
		r = c.Store(r, i, x.mergeArr(vs, pick))
	}
	return r
}

func (x *Exec) mergeVals(vs []Val, pick func([]*Term) *Term) (Val, bool) {
	terms := func(f func(v Val) *Term) *Term {
		var ts []*Term
		for _, v := range vs {
			ts = append(ts, f(v))
		}
		return pick(ts)
	}
	seq := func(n int, get func(v Val, i int) Val) ([]Val, bool) {
		var out []Val
		for i := 0; i < n; i++ {
			var ws []Val
			for _, v := range vs {
				ws = append(ws, get(v, i))
			}
			w, ok := x.mergeVals(ws, pick)
			if !ok {
				return nil, false
			}
			out = append(out, w)
		}
		return out, true
	}
	switch v0 := vs[0].(type) {
	case nil:
		for _, v := range vs {
			if v != nil {
				return nil, false
			}
		}
		return nil, true
	case *Term:
		for _, v := range vs {
			t, ok := v.(*Term)
			if !ok || t.sort != v0.sort {
				return nil, false
			}
		}
		if v0.sort.isArr() {
			var ts []*Term
			for _, v := range vs {
				ts = append(ts, v.(*Term))
			}
			return x.mergeArr(ts, pick), true
		}
		return terms(func(v Val) *Term { return v.(*Term) }), true
	case *VSlice:
		for _, v := range vs {
			s, ok := v.(*VSlice)
			if !ok || (s.arr == nil) != (v0.arr == nil) {
				return nil, false
			}
		}
		if v0.arr == nil {
			return v0, true
		}
		return &VSlice{v0.elem, terms(func(v Val) *Term { return v.(*VSlice).arr }), terms(func(v Val) *Term { return v.(*VSlice).off }),
			terms(func(v Val) *Term { return v.(*VSlice).len }), terms(func(v Val) *Term { return v.(*VSlice).cap })}, true
	case *VPtr:
		for _, v := range vs {
			p, ok := v.(*VPtr)
			if !ok || p.cls != v0.cls || len(p.idx) != len(v0.idx) || p.cell != v0.cell || len(p.path) != len(v0.path) || p.arrN != v0.arrN || !types.Identical(p.elem, v0.elem) {
				return nil, false
			}
			for i := range p.path {
				if p.path[i] != v0.path[i] {
					return nil, false
				}
			}
		}
		r := *v0
		r.idx = nil
		for i := range v0.idx {
			r.idx = append(r.idx, terms(func(v Val) *Term { return v.(*VPtr).idx[i] }))
		}
		return &r, true
	case *VStruct:
		for _, v := range vs {
			if s, ok := v.(*VStruct); !ok || len(s.fields) != len(v0.fields) {
				return nil, false
			}
		}
		fs, ok := seq(len(v0.fields), func(v Val, i int) Val { return v.(*VStruct).fields[i] })
		return &VStruct{v0.typ, fs}, ok
	case *VArr:
		for _, v := range vs {
			if s, ok := v.(*VArr); !ok || len(s.elems) != len(v0.elems) {
				return nil, false
			}
		}
		es, ok := seq(len(v0.elems), func(v Val, i int) Val { return v.(*VArr).elems[i] })
		return &VArr{v0.elem, es}, ok
	case VTuple:
		for _, v := range vs {
			if s, ok := v.(VTuple); !ok || len(s) != len(v0) {
				return nil, false
			}
		}
		es, ok := seq(len(v0), func(v Val, i int) Val { return v.(VTuple)[i] })
		return VTuple(es), ok
	case *VIface:
		sameVal := true
		for _, v := range vs {
			i, ok := v.(*VIface)
			if !ok {
				return nil, false
			}
			sameVal = sameVal && i == v0
		}
		if sameVal {
			return v0, true
		}
		allNil := true
		for _, v := range vs {
			i := v.(*VIface)
			allNil = allNil && i.dyn == nil && i.tag == nil
		}
		if allNil {
			return v0, true
		}
		for _, v := range vs {
			if i := v.(*VIface); i.dyn != nil && i.val != nil {
				return nil, false
			}
		}
		return &VIface{tag: terms(func(v Val) *Term { t, _ := x.ifaceTerms(v.(*VIface)); return t }), pay: terms(func(v Val) *Term { _, p := x.ifaceTerms(v.(*VIface)); return p })}, true
	case *VSpecial:
		for _, v := range vs {
			if s, ok := v.(*VSpecial); !ok || len(s.m) != len(v0.m) {
				return nil, false
			}
		}
		r := &VSpecial{typ: v0.typ, m: map[string]*Term{}}
		for k := range v0.m {
			var ts []*Term
			for _, v := range vs {
				ts = append(ts, v.(*VSpecial).m[k])
			}
			r.m[k] = x.mergeArr(ts, pick)
		}
		return r, true
	default:
		for _, v := range vs {
			if v != vs[0] {
				return nil, false
			}
		}
		return vs[0], true
	}
}

// disj is the disjunction of conjunctions, simplified by joining alternatives that differ in one
// literal and by dropping literals refuted by another alternative.
func (c *Ctx) disj(ds []*Term) *Term {
	type cl map[*Term]bool
	var cs []cl
	for _, d := range ds {
		k := cl{}
		for _, t := range conjuncts(d) {
			if !t.isTrue() {
				k[t] = true
			}
		}
		cs = append(cs, k)
	}
	sub := func(a, b cl) bool { // a's literals are among b's
		for t := range a {
			if !b[t] {
				return false
			}
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for i := range cs {
			for j := range cs {
				if i == j || cs[i] == nil || cs[j] == nil {
					continue
				}
				if sub(cs[i], cs[j]) {
					cs[j] = nil
					ch = true
					continue
				}
				// cs[i] = A and l, with A among cs[j] and (not l) in cs[j]: drop (not l) from cs[j]
				for l := range cs[i] {
					nl := c.Not(l)
					if !cs[j][nl] {
						continue
					}
					rest := cl{}
					for t := range cs[i] {
						if t != l {
							rest[t] = true
						}
					}
					if sub(rest, cs[j]) {
						nj := cl{}
						for t := range cs[j] {
							if t != nl {
								nj[t] = true
							}
						}
						cs[j] = nj
						ch = true
						break
					}
				}
			}
		}
	}
	var out []*Term
	for _, k := range cs {
		if k == nil {
			continue
		}
		var ts []*Term
		for t := range k {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		out = append(out, c.And(ts...))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.Or(out...)
}

// mergedReturn collects the returns of an inlined call and goes on once when they can be joined.
func (x *Exec) mergedReturn(st *State, fr *frame, stack []string, k func(*State, []Val)) {
	base := st.clone()
	var got []arrival
	fr.ret = func(s *State, r []Val) { got = append(got, arrival{st: s, vals: r}) }
	x.sinks = append(x.sinks, &got)
	x.instrs(st, fr, fr.fn.Blocks[0], 0)
	x.sinks = x.sinks[:len(x.sinks)-1]
	x.fnStack = stack
	var live []arrival
	for _, a := range got {
		if !a.st.dead {
			live = append(live, a)
		}
	}
	if len(live) > 1 {
		if m, vs := x.mergeStates(base, live); m != nil {
			x.use(m)
			k(m, vs)
			x.fnStack = stack
			return
		}
	}
	for _, a := range live {
		x.use(a.st)
		x.fnStack = stack
		k(a.st, a.vals)
	}
	x.fnStack = stack
}
