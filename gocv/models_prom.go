package main

import (
	"go/token"
	"math/big"
)

// Prometheus counters: $prom[c] is the exact sum added to counter c, $observed[h] the number of
// observations of histogram h. Each New* call returns a metric of its own.

const promTag = fnvTag + 1

func (x *Exec) floatInt(t *Term) *Term {
	c := x.c
	if t.op == "app" && t.name == "itof" {
		return t.args[0]
	}
	if t.op == "app" && t.name == "inj.fconst" {
		if s, ok := c.strVal[t.args[0]]; ok {
			if n, ok := new(big.Int).SetString(s, 10); ok {
				return c.BigInt(n)
			}
		}
	}
	return c.App("fexact", SInt, t)
}

func init() {
	const P = "github.com/prometheus/client_golang/prometheus."
	add := func(x *Exec, st *State, iv *VIface, g string, n *Term) {
		_, p := x.ifaceTerms(iv)
		x.wrHeap(st, g, []*Term{p}, SInt, x.c.Add(x.rdHeap(st, g, []*Term{p}, SInt), n))
	}
	ifaceModels[P+"Counter.Inc"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		add(x, st, iv, "$prom", x.c.Int(1))
		k(st, nil)
	}
	ifaceModels[P+"Counter.Add"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		n := x.floatInt(a[0].(*Term))
		x.safe(st, "a counter only grows", pos, x.c.Ge(n, x.c.Int(0)))
		add(x, st, iv, "$prom", n)
		k(st, nil)
	}
	ifaceModels[P+"Histogram.Observe"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		add(x, st, iv, "$hist", x.c.Int(1))
		k(st, nil)
	}
	for _, m := range []string{"Set", "Inc", "Dec", "Add", "Sub"} {
		ifaceModels[P+"Gauge."+m] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) { k(st, nil) }
	}
}
