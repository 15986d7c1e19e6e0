package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of hash/fnv, encoding/binary and container/list.

const fnvTag = 1<<29 + 1

func init() {
	m0("hash/fnv.New64a", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		r := x.newRef()
		x.wrHeap(st, "$hash", []*Term{r}, SInt, x.c.App("fnv.init", SInt))
		k(st, []Val{&VIface{tag: x.c.Int(fnvTag), pay: r}})
	})
	write := func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		tag, pay := x.ifaceTerms(iv)
		if !tag.isInt() || tag.n.Int64() != fnvTag {
			x.unsupported("Write on an unknown writer")
		}
		b := a[0].(*VSlice)
		h := x.rdHeap(st, "$hash", []*Term{pay}, SInt)
		content := c.Select(x.heapArr(st, "[]"+className(b.elem), 2, SInt), b.arr)
		if content.op == "app" && content.name == "bytesof" && b.off.isInt() && b.off.n.Sign() == 0 && b.len == c.App("strlen", SInt, content.args[0]) {
			h = c.App("fnv.str", SInt, h, content.args[0])
		} else if b.len.isInt() && b.len.n.Int64() <= 16 {
			// byte by byte: the hash of a concatenation
			for i := int64(0); i < b.len.n.Int64(); i++ {
				h = c.App("fnv.byte", SInt, h, c.Select(content, c.Add(b.off, c.Int(i))))
			}
		} else {
			h = c.App("fnv.bytes", SInt, h, content, b.off, b.len)
		}
		x.wrHeap(st, "$hash", []*Term{pay}, SInt, h)
		k(st, []Val{b.len, &VIface{}})
	}
	ifaceModels["io.Writer.Write"] = write
	ifaceModels["hash.Hash64.Write"] = write
	ifaceModels["hash.Hash64.Sum64"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		_, pay := x.ifaceTerms(iv)
		r := x.c.App("fnv.sum", SInt, x.rdHeap(st, "$hash", []*Term{pay}, SInt))
		x.use(st)
		x.rangeFact(r, "u64")
		k(st, []Val{r})
	}
	m0("encoding/binary.littleEndian.PutUint64", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		b, v := a[1].(*VSlice), a[2].(*Term)
		x.safe(st, "PutUint64 within the slice", pos, c.Ge(b.len, c.Int(8)))
		key := "[]" + className(b.elem)
		h := x.heapArr(st, key, 2, SInt)
		content := c.Select(h, b.arr)
		for i := int64(0); i < 8; i++ {
			e := c.App("byteof", SInt, v, c.Int(i))
			x.factRange(e, zInt(c).n, c.Int(255).n)
			content = c.Store(content, c.Add(b.off, c.Int(i)), e)
		}
		st.heap[key] = c.Store(h, b.arr, content)
		k(st, nil)
	})

	// container/list: $llen and $lstart of a list, node inj.lnode(list, position); a list only
	// grows at the back and is emptied as a whole
	const ln, ls = "$llen", "$lstart"
	lst := func(x *Exec, st *State, v Val) *Term {
		p := v.(*VPtr)
		x.nonNil(st, p, token.NoPos)
		return x.refOf(p)
	}
	rd := func(x *Exec, st *State, g string, l *Term) *Term {
		x.use(st)
		v := x.rdHeap(st, g, []*Term{l}, SInt)
		x.factRange(v, zInt(x.c).n, maxLen)
		return v
	}
	elemPtr := func(fn *ssa.Function, r *Term) *VPtr {
		el := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return &VPtr{cls: className(el), idx: []*Term{r}, elem: el}
	}
	node := func(x *Exec, l, i *Term) *Term {
		n := x.c.App("inj.lnode", SInt, l, i)
		x.factRange(n, big.NewInt(1<<50), new(big.Int).Lsh(bigOne, 60))
		return n
	}
	m0("container/list.New", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		r := x.newRef()
		x.wrHeap(st, ln, []*Term{r}, SInt, x.c.Int(0))
		x.wrHeap(st, ls, []*Term{r}, SInt, x.c.Int(0))
		k(st, []Val{elemPtr(fn, r)})
	})
	m0("container/list.List.Len", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{rd(x, st, ln, lst(x, st, a[0]))})
	})
	m0("container/list.List.Init", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		l := lst(x, st, a[0])
		n := rd(x, st, ln, l)
		x.wrHeap(st, ls, []*Term{l}, SInt, x.c.Add(rd(x, st, ls, l), n))
		x.wrHeap(st, ln, []*Term{l}, SInt, x.c.Int(0))
		k(st, []Val{a[0]})
	})
	m0("container/list.List.PushBack", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		l := lst(x, st, a[0])
		n := rd(x, st, ln, l)
		e := node(x, l, x.c.Add(rd(x, st, ls, l), n))
		if x.guard != nil {
			x.guard(st, "$list", []*Term{l}, true)
		}
		tag, pay := x.ifaceTerms(a[1].(*VIface))
		x.wrHeap(st, "container/list.Element.Value.tag", []*Term{e}, SInt, tag)
		x.wrHeap(st, "container/list.Element.Value.pay", []*Term{e}, SInt, pay)
		x.wrHeap(st, ln, []*Term{l}, SInt, x.c.Add(n, x.c.Int(1)))
		k(st, []Val{elemPtr(fn, e)})
	})
	m0("container/list.List.Front", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		l := lst(x, st, a[0])
		if x.guard != nil {
			x.guard(st, "$list", []*Term{l}, false)
		}
		x.fork(st, x.c.Lt(x.c.Int(0), rd(x, st, ln, l)), func(s *State) {
			x.use(s)
			k(s, []Val{elemPtr(fn, node(x, l, rd(x, s, ls, l)))})
		}, func(s *State) { k(s, []Val{elemPtr(fn, x.c.Int(0))}) })
	})
	m0("container/list.Element.Next", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		e := x.refOf(a[0])
		c := x.c
		for e.op == "ite" {
			if e.args[1].op == "app" && e.args[1].name == "inj.lnode" && e.args[2].isInt() {
				e = e.args[1] // nil was excluded: the method is called on it
			} else {
				break
			}
		}
		if e.op != "app" || e.name != "inj.lnode" {
			k(st, []Val{elemPtr(fn, c.App("list.next", SInt, e))})
			return
		}
		l, i := e.args[0], c.Add(e.args[1], c.Int(1))
		end := c.Add(rd(x, st, ls, l), rd(x, st, ln, l))
		k(st, []Val{elemPtr(fn, c.Ite(c.Lt(i, end), node(x, l, i), c.Int(0)))})
	})

	// The worker of the batching service, against the contracts of the accumulator (T02), the
	// compressor (T03) and the sink, for one arbitrary cell (kk, bb): $R is the sum of the deltas
	// received for it, $H what the accumulator holds, $D what the sink was given.
	setups["service"] = func(x *Exec, st *State, ct *Contract, vars map[string]Val) {
		x.opaque = map[string]bool{"$R": true, "$H": true, "$D": true, "$drained": true, "$stopseen": true, "chan.closed": true}
		kk, bb := vars["kk"].(*Term), vars["bb"].(*Term)
		sv := vars[ct.params[0]].(*VPtr)
		g := func(s *State, n string) *Term { return x.rdHeap(s, n, nil, SInt) }
		w := func(s *State, n string, v *Term) { x.wrHeap(s, n, nil, SInt, v) }
		x.field(sv, sv.elem.Underlying().(*types.Struct), 0)
		fieldRef := func(s *State, n string) *Term {
			stt := sv.elem.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == n {
					g := x.guard
					x.guard = nil
					t := x.load(s, x.field(sv, stt, i), token.NoPos).(*Term)
					x.guard = g
					return t
				}
			}
			x.unsupported("no field %s", n)
			return nil
		}
		mine := func(v Val) (delta *Term) {
			c := x.c
			e := v.(*VStruct)
			f := func(v Val, n string) Val {
				s := v.(*VStruct)
				u := s.typ.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == n {
						return s.fields[i]
					}
				}
				x.unsupported("no field %s", n)
				return nil
			}
			fp := f(e, "Footprint")
			hit := c.And(c.Eq(f(e, "Channel").(*Term), c.Int(0)), c.Eq(f(fp, "KeyID").(*Term), kk), c.Eq(f(f(fp, "Time"), "BucketID").(*Term), bb))
			return c.Ite(hit, f(e, "Delta").(*Term), c.Int(0))
		}
		batch := func(s *State, t types.Type, sum *Term) *VSlice {
			c := x.c
			sl := x.freshVal(s, "batch", t).(*VSlice)
			x.wrHeap(s, "$bsum", []*Term{sl.arr}, SInt, sum)
			x.assume(s, c.Or(c.Lt(c.Int(0), sl.len), c.Eq(sum, c.Int(0))), false)
			return sl
		}
		x.hooks.call = func(s *State, name string, a []Val, k func(*State, []Val)) bool {
			c := x.c
			x.use(s)
			switch normName(name) {
			case "chan.recv":
				ch := a[0].(*Term)
				if in := fieldRef(s, "in"); ch == in {
					w(s, "$R", c.Add(g(s, "$R"), mine(a[1])))
				}
				x.wrHeap(s, "$drained", nil, SBool, c.Bool(false))
				if ch == fieldRef(s, "flushReqCh") {
					// a request carries a channel made by its caller (proved of Flush)
					r := a[1].(*Term)
					x.assume(s, c.And(c.Not(c.Eq(r, c.Int(0))), c.Not(c.Eq(r, fieldRef(s, "doneCh"))), c.Not(x.rdHeap(s, "chan.closed", []*Term{r}, SBool))), false)
				}
				if ch == fieldRef(s, "stopCh") {
					x.bump(s, "$stopseen")
				}
				return true
			case "select.default":
				if len(a) == 1 && a[0].(*Term) == fieldRef(s, "in") {
					x.wrHeap(s, "$drained", nil, SBool, c.Bool(true))
				}
				return true
			case "chan.close":
				x.oblige(s, []string{"T04"}, "a request is answered, and the worker ends, only when all is delivered", token.NoPos,
					c.And(x.rdHeap(s, "$drained", nil, SBool), c.Eq(g(s, "$D"), g(s, "$R"))))
				return true
			case "vsa/plugin/tfd.SAccumulator.Ingest":
				x.nonNil(s, a[0].(*VPtr), token.NoPos)
				w(s, "$H", c.Add(g(s, "$H"), mine(a[1])))
				k(s, nil)
				return true
			case "vsa/plugin/tfd.SAccumulator.FlushAll":
				x.nonNil(s, a[0].(*VPtr), token.NoPos)
				h := g(s, "$H")
				w(s, "$H", c.Int(0))
				fn := x.P.lookup("vsa/plugin/tfd.SAccumulator.FlushAll")
				k(s, []Val{batch(s, fn.Signature.Results().At(0).Type(), h)})
				return true
			case "invoke:vsa/plugin/tfd.VSATransformer.Compress":
				b := a[1].(*VSlice)
				k(s, []Val{batch(s, types.NewSlice(b.elem), x.rdHeap(s, "$bsum", []*Term{b.arr}, SInt))})
				return true
			case "invoke:vsa/plugin/tfd.SBatchesSink.OnSBatches":
				b := a[1].(*VSlice)
				x.oblige(s, []string{"T04"}, "the sink is not called with an empty list", token.NoPos, c.Lt(c.Int(0), b.len))
				w(s, "$D", c.Add(g(s, "$D"), x.rdHeap(s, "$bsum", []*Term{b.arr}, SInt)))
				k(s, nil)
				return true
			}
			return false
		}
	}
}
