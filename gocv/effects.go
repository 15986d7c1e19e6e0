package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"strings"
)

// Calls seen from a contract: obligations at calls (at), ghost counters of calls (option count),
// and callees that are counted instead of executed because a contract of their own covers them
// (option stub). A goroutine's body runs where it is started when "option spawn run" is given.
func (x *Exec) installCalls(ct *Contract, vars map[string]Val, pre *State) {
	count, stub := optTable(ct, "count"), optTable(ct, "stub")
	var ats []clause
	for _, cl := range ct.clauses {
		if cl.kind == "at" {
			ats = append(ats, cl)
		}
	}
	x.spawnRuns = ct.opts["spawn"] == "run"
	x.shared = map[string]bool{}
	for _, k := range strings.Fields(ct.opts["shared"]) {
		x.shared[k] = true
	}
	signal := ct.opts["signal"]
	race := ct.opts["race"]
	if len(count)+len(stub)+len(ats) == 0 && signal == "" && race == "" {
		return
	}
	var stopCh *Term
	if signal != "" {
		e, err := parser.ParseExpr(signal)
		if err != nil {
			x.unsupported("signal: %v", err)
		}
		g := x.guard
		x.guard = nil
		stopCh = (&scope{x: x, st: pre, old: pre, vars: vars, pkg: ct.pkg, impl: true}).term(e)
		x.guard = g
	}
	hook := x.hooks.call
	short := func(name string) string { return x.short(ct, name) }
	x.hooks.call = func(st *State, name string, a []Val, k func(*State, []Val)) bool {
		n := normName(name)
		key := n
		if x.before != nil {
			x.before(st, n)
		}
		match := func(m string) bool { return m == n || m == short(n) }
		for _, cl := range ats {
			if match(cl.name) {
				if x.atSeen != nil {
					x.atSeen[cl.name]++
				}
				g := x.guard
				x.guard = nil
				sc := &scope{x: x, st: st, old: pre, vars: map[string]Val{}, pkg: ct.pkg, impl: true}
				for k, v := range vars {
					sc.vars[k] = v
				}
				for i, v := range a {
					sc.vars[fmt.Sprintf("a%d", i)] = v
				}
				x.use(st)
				x.oblige(st, cl.props, "at "+cl.name+": "+first(cl.label, cl.src), token.NoPos, sc.term(cl.expr))
				x.guard = g
			}
		}
		if n == "chan.recv" && stopCh != nil {
			if ch := a[0].(*Term); ch == stopCh {
				x.bump(st, "$stopseen")
			}
		}
		if race != "" && strings.HasPrefix(n, "sync/atomic.") && len(a) > 0 {
			if f := races[race]; f != nil {
				f(x, st, a, vars)
			}
		}
		for m, g := range count {
			if match(m) {
				if gn, at, ok := strings.Cut(g, "@"); ok {
					i := int(at[0] - '0')
					x.bumpAt(st, "$"+gn, x.refOf(a[i]))
				} else {
					x.bump(st, "$"+g)
				}
			}
		}
		for m, g := range stub {
			if match(m) && k != nil {
				x.bump(st, "$"+g)
				fn := x.P.lookup(key)
				if fn == nil {
					return false
				}
				var rs []Val
				for i := 0; i < fn.Signature.Results().Len(); i++ {
					rs = append(rs, x.freshVal(st, "stub."+g, fn.Signature.Results().At(i).Type()))
				}
				x.contracts[n] = true
				k(st, rs)
				return true
			}
		}
		if hook != nil {
			return hook(st, name, a, k)
		}
		return false
	}
}

// races are the steps other goroutines may take before an atomic operation.
var races = map[string]func(x *Exec, st *State, a []Val, vars map[string]Val){}

func init() {
	// another call of Stop may have won meanwhile; it may or may not have closed the channel yet
	races["stop"] = func(x *Exec, st *State, a []Val, vars map[string]Val) {
		p, ok := a[0].(*VPtr)
		if !ok || p.cls != "vsa/internal/ratelimiter/core.Worker.stopped" {
			return
		}
		c := x.c
		x.use(st)
		old := x.rdHeap(st, p.cls, p.idx, SInt)
		won := c.And(c.Eq(old, c.Int(0)), c.Fresh("other", SBool))
		x.wrHeap(st, p.cls, p.idx, SInt, c.Ite(won, c.Int(1), old))
		x.use(st)
		ch := x.rdHeap(st, "vsa/internal/ratelimiter/core.Worker.stopChan", p.idx, SInt)
		cl := x.rdHeap(st, "chan.closed", []*Term{ch}, SBool)
		x.wrHeap(st, "chan.closed", []*Term{ch}, SBool, c.Or(cl, c.And(won, c.Fresh("closed", SBool))))
		x.use(st)
	}
}
