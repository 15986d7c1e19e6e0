package main

import (
	"fmt"
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts on the persistence interface and ghost state of the worker.

// persistBatch is the assumed contract of Persister.CommitBatch: the batch is observed (ghost
// $bKey, $bVec, $bLen, $batches), the answer is arbitrary, and meanwhile other goroutines may have
// consumed or refunded (with option interference).
func (x *Exec) persistBatch(st *State, commits *VSlice, k func(*State, []Val)) {
	c := x.c
	x.use(st)
	if x.guard != nil {
		x.guard(st, "call:CommitBatch", nil, true)
	}
	key := "[]" + className(commits.elem)
	content := func(s *State, suf string) *Term {
		h := x.heapArr(s, key+suf, 2, SInt)
		a := c.Select(h, commits.arr)
		if commits.off.isInt() && commits.off.n.Sign() == 0 {
			return a
		}
		i := c.TempBV()
		return c.Lam(i, c.Select(a, c.Add(commits.off, i)))
	}
	kA, vA := content(st, ".Key"), content(st, ".Vector")
	x.bump(st, "$batches")
	put := func(n string, v *Term) {
		x.heapArr(st, n, 1, SInt)
		st.heap[n] = v
	}
	put("$bKey", kA)
	put("$bVec", vA)
	x.wrHeap(st, "$bLen", nil, SInt, commits.len)
	x.wrHeap(st, "$bClosed", nil, SBool, x.rdHeap(st, "$stopseen", nil, SBool))
	if commits.len.isInt() && commits.len.n.Int64() == 1 {
		k0 := c.Select(kA, c.Int(0))
		x.bumpAt(st, "$pcount", k0)
		x.wrHeap(st, "$pvec", []*Term{k0}, SInt, c.Select(vA, c.Int(0)))
	} else if x.tracksKeys {
		x.unsupported("batch of several keys where single writes are expected")
	}
	if x.interfere {
		n0 := x.heapArr(st, "$N", 1, SInt)
		put("$N", c.Fresh("envN", arrSort(SInt, SInt)))
		if x.touching {
			// every request touches its key before it consumes
			const la, in = "vsa/internal/ratelimiter/core.managedVSA.lastAccessed", "vsa/internal/ratelimiter/core.managedVSA.instance"
			t0 := x.heapArr(st, la, 1, SInt)
			put(la, c.Fresh("touched", arrSort(SInt, SInt)))
			m := c.TempBV()
			acc := c.Select(x.heapArr(st, in, 1, SInt), m)
			x.assume(st, c.Forall(m, c.Imp(c.Eq(c.Select(st.heap[la], m), c.Select(t0, m)), c.Eq(c.Select(st.heap["$N"], acc), c.Select(n0, acc)))), false)
		}
	}
	x.heapArr(st, "$S", 1, SInt)
	x.heapArr(st, "$N", 1, SInt)
	put("$bS", st.heap["$S"])
	put("$bN", st.heap["$N"])
	ok := c.Fresh("persisted", SBool)
	x.fork(st, ok, func(s *State) {
		x.wrHeap(s, "$bOK", nil, SBool, c.Bool(true))
		x.bump(s, "$oks")
		if commits.len.isInt() && commits.len.n.Int64() == 1 {
			x.bumpAt(s, "$pok", c.Select(kA, c.Int(0)))
		}
		k(s, []Val{&VIface{}})
	}, func(s *State) {
		x.wrHeap(s, "$bOK", nil, SBool, c.Bool(false))
		x.bump(s, "$errs")
		k(s, []Val{x.freshErr("persist")})
	})
}

func init() {
	ifaceModels["vsa/internal/ratelimiter/core.Persister.CommitBatch"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.persistBatch(st, a[0].(*VSlice), k)
	}
	ifaceModels["vsa/internal/ratelimiter/core.Persister.PrintFinalMetrics"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, nil)
	}
	setups["worker"] = func(x *Exec, st *State, ct *Contract, vars map[string]Val) {
		x.interfere = ct.opts["interference"] != ""
		x.tracksKeys = ct.opts["single"] != ""
		x.touching = ct.opts["touch"] != ""
		if x.touching {
			// requests may touch any key after the scan
			hook := x.hooks.call
			x.hooks.call = func(st *State, name string, a []Val, k func(*State, []Val)) bool {
				if normName(name) == "sync.Map.Range" {
					x.smRange(st, a[0].(*VPtr), a[1].(*VFunc), token.NoPos, func(s *State, rs []Val) {
						const la = "vsa/internal/ratelimiter/core.managedVSA.lastAccessed"
						x.heapArr(s, la, 1, SInt)
						s.heap[la] = x.c.Fresh("touched", arrSort(SInt, SInt))
						k(s, rs)
					})
					return true
				}
				return hook != nil && hook(st, name, a, k)
			}
		}
	}
}

// options that concern every contract
func (x *Exec) commonOptions(ct *Contract) {
	x.exits = ct.opts["exits"] != ""
	x.c.rules["strcat"] = func(t *Term) *Term { return catRule(x.c, t) }
	x.c.rules["strof"] = func(t *Term) *Term { return strRule(x.c, t) }
	x.callbacks = ct.opts["callbacks"] != ""
	x.merging = ct.opts["merge"] != ""
	for _, f := range strings.Fields(ct.opts["inverse"]) {
		a, b, _ := strings.Cut(f, ":")
		x.inverse["H."+sanitize(a)] = b
	}
}

// witness evaluates body at the positions where a filtered append put the element of key k.
func (s *scope) witness(name string, k *Term, body func(*scope) *Term) *Term {
	x, c := s.x, s.x.c
	var alts []*Term
	try := func(w *Term) {
		alts = append(alts, body(s.with(name, w)))
	}
	for _, e := range x.enums {
		if len(e.its) > 0 {
			continue
		}
		j := e.pos(k)
		try(j)
		for _, f := range x.filters {
			if len(f.its) > 0 {
				continue
			}
			try(c.Subst(f.cnt, f.it, j))
		}
	}
	return c.Or(alts...)
}

var _ = fmt.Sprint
var _ *ssa.Function

func init() {
	// between two operations on the map another goroutine may have created the entry
	setups["store"] = func(x *Exec, st *State, ct *Contract, vars map[string]Val) {
		x.hooks.call = func(s *State, name string, a []Val, k func(*State, []Val)) bool {
			switch normName(name) {
			case "env.syncmap":
				c := x.c
				x.use(s)
				p, key := a[0].(*VPtr), x.smKey(a[1])
				idx := append(append([]*Term(nil), p.idx...), key)
				dom := x.rdHeap(s, p.cls+".dom", idx, SBool)
				pay := x.rdHeap(s, p.cls+".vpay", idx, SInt)
				came := c.And(c.Not(dom), c.Fresh("other", SBool))
				m := c.Fresh("theirs", SInt)
				x.factRange(m, bigOne, big.NewInt(1<<40-1))
				in := x.rdHeap(s, "vsa/internal/ratelimiter/core.managedVSA.instance", []*Term{m}, SInt)
				x.factRange(in, bigOne, big.NewInt(1<<40-1))
				x.assume(s, c.And(c.Eq(c.App("keyof", SInt, m), key), c.Eq(c.App("ownerof", SInt, in), m)), false)
				x.wrHeap(s, p.cls+".dom", idx, SBool, c.Or(dom, came))
				x.wrHeap(s, p.cls+".vpay", idx, SInt, c.Ite(came, m, pay))
				x.use(s)
				return true
			case "vsa.VSA.Close":
				// an accumulator of this call that is shut down lost the race
				x.wrHeap(s, "$lost", nil, SInt, x.c.Ite(x.c.Le(x.c.Int(1<<40), x.refOf(a[0])), x.c.Int(1), x.rdHeap(s, "$lost", nil, SInt)))
			}
			return false
		}
	}
}
