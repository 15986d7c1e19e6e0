package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Package maps, as its documentation describes it.

func init() {
	// mapRead observes reading all of the map r.
	mapRead := func(x *Exec, st *State, mt *types.Map, r *Term, write bool) {
		if x.guard != nil {
			x.guard(st, mapCls(mt)+".dom", []*Term{r, x.c.Fresh("anykey", SInt)}, write)
		}
	}
	merge := func(x *Exec, st *State, mt *types.Map, dst, src *Term) {
		c := x.c
		cls := mapCls(mt)
		dom := x.heapArr(st, cls+".dom", 2, SBool)
		sd, dd := c.Select(dom, src), c.Select(dom, dst)
		x.encode(mt.Elem(), x.zero(mt.Elem()), func(suf string, s Sort, _ *Term) {
			h := x.heapArr(st, cls+".val"+suf, 2, s)
			k := c.TempBV()
			st.heap[cls+".val"+suf] = c.Store(h, dst, c.Lam(k, c.Ite(c.Select(sd, k), c.Select(c.Select(h, src), k), c.Select(c.Select(h, dst), k))))
		})
		k := c.TempBV()
		st.heap[cls+".dom"] = c.Store(dom, dst, c.Lam(k, c.Or(c.Select(sd, k), c.Select(dd, k))))
	}
	mapArg := func(x *Exec, fn *ssa.Function, i int) *types.Map {
		mt, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Map)
		if !ok {
			x.unsupported("%s of a type parameter", fn)
		}
		return mt
	}
	m0("maps.Copy", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		mt, ms := mapArg(x, fn, 0), mapArg(x, fn, 1)
		if mapCls(mt) != mapCls(ms) {
			x.unsupported("maps.Copy between %s and %s", mt, ms)
		}
		dst, src := a[0].(*Term), a[1].(*Term)
		cls := mapCls(mt)
		mapRead(x, st, mt, src, false)
		mapRead(x, st, mt, dst, true)
		ls := x.rdHeap(st, cls+".len", []*Term{src}, SInt)
		ld := x.rdHeap(st, cls+".len", []*Term{dst}, SInt)
		x.safe(st, "write to a nil map", pos, c.Or(c.Ne(dst, c.Int(0)), c.Eq(ls, c.Int(0))))
		merge(x, st, mt, dst, src)
		n := ls
		if !ld.isInt() || ld.n.Sign() != 0 {
			n = c.Fresh("maplen", SInt)
			x.assume(st, c.And(c.Ge(n, ls), c.Ge(n, ld), c.Le(n, c.Add(ls, ld))), false)
		}
		x.wrHeap(st, cls+".len", []*Term{dst}, SInt, n)
		k(st, nil)
	})
	m0("maps.Clone", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		mt := mapArg(x, fn, 0)
		src := a[0].(*Term)
		cls := mapCls(mt)
		x.fork(st, c.Eq(src, c.Int(0)), func(s *State) { k(s, []Val{c.Int(0)}) }, func(s *State) {
			r := x.newRef()
			x.clearMap(s, mt, r)
			mapRead(x, s, mt, src, false)
			merge(x, s, mt, r, src)
			x.wrHeap(s, cls+".len", []*Term{r}, SInt, x.rdHeap(s, cls+".len", []*Term{src}, SInt))
			k(s, []Val{r})
		})
	})
}
