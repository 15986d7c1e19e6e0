package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Assumed contract of package sort (and slices): sorting permutes the elements. The permutation is
// a bijection of [0,n) that leaves every other index alone; the comparison is only called with
// indices of the slice. The resulting order is not specified.

func init() {
	idx := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv, ok := a[0].(*VIface)
		if !ok || iv.val == nil {
			x.unsupported("sort of an unknown value")
		}
		sl, ok := iv.val.(*VSlice)
		if !ok {
			x.unsupported("sort of a non-slice")
		}
		less := a[1].(*VFunc)
		x.permute(st, sl, func(s *State, k2 func(*State)) {
			c := x.c
			i, j := c.Fresh("si", SInt), c.Fresh("sj", SInt)
			for _, t := range []*Term{i, j} {
				x.assume(s, c.And(c.Le(c.Int(0), t), c.Lt(t, sl.len)), false)
			}
			x.callFunc(s, less, []Val{i, j}, pos, func(s2 *State, _ []Val) { k2(s2) })
		}, k)
	}
	m0("sort.Slice sort.SliceStable", idx)
	m0("sort.Strings sort.Ints slices.Sort", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.permute(st, a[0].(*VSlice), func(s *State, k2 func(*State)) { k2(s) }, k)
	})
}

func (x *Exec) permute(st *State, sl *VSlice, cmp func(*State, func(*State)), k func(*State, []Val)) {
	c := x.c
	// the comparison, with arbitrary elements, has to be safe and without effect
	if x.peek == nil {
		s := st.clone()
		h0 := map[string]*Term{}
		for n, t := range s.heap {
			h0[n] = t
		}
		cmp(s, func(s2 *State) {
			if s2.dead {
				return
			}
			for n, t := range s2.heap {
				if o := h0[n]; o != nil && o != t {
					x.unsupported("a comparison with effects on %s", n)
				}
			}
		})
		x.use(st)
	}
	c.fresh["perm"]++
	pn := fmt.Sprintf("perm#%d", c.fresh["perm"])
	var its []*Term
	its = append(its, st.its...)
	if c.perms == nil {
		c.perms = map[string]*Term{}
	}
	c.perms[pn] = sl.len
	cls := "[]" + className(sl.elem)
	x.encode(sl.elem, x.zero(sl.elem), func(suf string, so Sort, _ *Term) {
		h := x.heapArr(st, cls+suf, 2, so)
		old := c.Select(h, sl.arr)
		i := c.TempBV()
		p := c.App(pn, SInt, append(append([]*Term(nil), its...), c.Sub(i, sl.off))...)
		st.heap[cls+suf] = c.Store(h, sl.arr, c.Lam(i, c.Select(old, c.Add(sl.off, p))))
	})
	k(st, nil)
}
