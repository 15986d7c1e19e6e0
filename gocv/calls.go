package main

// Calls: builtins, inlining, contracts at call sites, and trusted models of library functions.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) calleeVal(st *State, fr *frame, cc *ssa.CallCommon) Val {
	if cc.IsInvoke() {
		return x.val(st, fr, cc.Value)
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return &VFunc{fn: v, sig: v.Signature}
	case *ssa.Builtin:
		return v
	}
	return x.val(st, fr, cc.Value)
}

func (x *Exec) callInstr(st *State, fr *frame, cc *ssa.CallCommon, pos token.Pos, k func(*State, []Val)) {
	f := x.calleeVal(st, fr, cc)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	x.callAny(st, cc, f, args, pos, k)
}

func (x *Exec) callAny(st *State, cc *ssa.CallCommon, f Val, args []Val, pos token.Pos, k func(*State, []Val)) {
	if cc != nil && cc.IsInvoke() {
		x.invoke(st, f.(*VIface), cc.Method, args, pos, k)
		return
	}
	switch f := f.(type) {
	case *ssa.Builtin:
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		x.builtin(st, f.Name(), ats, args, cc.Signature(), pos, k)
	case *VFunc:
		x.callFunc(st, f, args, pos, k)
	default:
		x.unsupported("call of %T", f)
	}
}

func (x *Exec) callFunc(st *State, f *VFunc, args []Val, pos token.Pos, k func(*State, []Val)) {
	if f.model != nil {
		f.model(x, st, args, k)
		return
	}
	if f.fn == nil {
		// unknown function value
		st.events = append(st.events, Event{name: "callback", args: append([]Val{f}, args...)})
		if x.hooks.call != nil && x.hooks.call(st, "callback", append([]Val{f}, args...), k) {
			return
		}
		if x.callbacks && f.ref != nil && f.sig != nil && f.sig.Results().Len() == 0 && len(args) == 1 {
			// a callback given by the caller: observed, and assumed not to touch this program's state
			x.safe(st, "call of a nil function", pos, x.c.Ne(f.ref, x.c.Int(0)))
			x.bumpAt(st, "$calls", f.ref)
			x.wrHeap(st, "$callarg", []*Term{f.ref}, SInt, x.payOf(f.sig.Params().At(0).Type(), args[0]))
			x.heapArr(st, "$llen", 1, SInt)
			x.heapArr(st, "$call.llen", 1, SInt)
			st.heap["$call.llen"] = st.heap["$llen"]
			k(st, nil)
			return
		}
		x.unsupported("call of an unknown function value")
		return
	}
	fn := f.fn
	if fn.Origin() != nil && fn.Blocks == nil {
		fn = f.fn
	}
	name := fnName(fn)
	if o := fn.Origin(); o != nil {
		name = fnName(o)
	}
	if x.hooks.call != nil && x.hooks.call(st, name, args, k) {
		return
	}
	if x.openCall != nil && x.openCall(st, name, fn.Signature.Results(), k) {
		return
	}
	if ct := contractFor(name); ct != nil && ct.opts["client"] != "" && !x.sameUnit(fn, ct) {
		x.contracts[ct.name] = true
		x.clientCall(ct, fn, st, args, pos, k)
		return
	}
	if ct := contractFor(name); ct != nil && ct.opts["modular"] != "" && len(x.fnStack) > 0 {
		x.contracts[ct.name] = true
		x.modularCall(ct, fn, st, args, pos, k)
		return
	}
	if m := models[normName(name)]; m != nil {
		x.used[name] = true
		m(x, st, fn, args, pos, k)
		return
	}
	if fn.Blocks != nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "vsa") || fn.Blocks != nil && (fn.Parent() != nil || fn.Synthetic != "") {
		x.callFn(st, fn, args, f.binds, k)
		return
	}
	x.external(st, name, fn.Signature, args, pos, k)
}

// sameUnit: a contract is used by callers in other packages; inside its package bodies are inlined.
func (x *Exec) sameUnit(fn *ssa.Function, ct *Contract) bool {
	return fn.Pkg != nil && x.spec != nil && fn.Pkg.Pkg.Path() == x.spec.pkg
}

var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "time": true, "math": true, "errors": true, "log": true,
	"os": true, "unicode": true, "math/bits": true, "context": true, "encoding/hex": true, "crypto/rand": true, "bytes": true, "io": true,
	"math/rand": true, "math/rand/v2": true, "net/url": true, "net/http": true, "runtime": true, "path/filepath": true}

// external: a library function without a model. Its results are unconstrained; it is trusted not
// to touch the program's state.
func (x *Exec) external(st *State, name string, sig *types.Signature, args []Val, pos token.Pos, k func(*State, []Val)) {
	pkg := name
	if i := strings.LastIndex(pkg, "."); i >= 0 {
		pkg = pkg[:i]
	}
	pkg = strings.TrimLeft(pkg, "(*")
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		if j := strings.Index(pkg[i:], "."); j >= 0 {
			pkg = pkg[:i+j]
		}
	} else if j := strings.Index(pkg, "."); j >= 0 {
		pkg = pkg[:j]
	}
	pkg = strings.TrimSuffix(pkg, ")")
	if !purePkgs[pkg] {
		x.unsupported("no model for %s", name)
	}
	x.used[name+" (results arbitrary)"] = true
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal(st, "ext."+name, sig.Results().At(i).Type()))
	}
	k(st, rs)
}

func (x *Exec) invoke(st *State, iv *VIface, m *types.Func, args []Val, pos token.Pos, k func(*State, []Val)) {
	tag, _ := x.ifaceTerms(iv)
	if iv.dyn == nil {
		b := x.c.bnd(tag)
		if b.lo == nil || b.lo.Sign() <= 0 {
			x.safe(st, "method call on a nil interface", pos, x.c.Ne(tag, x.c.Int(0)))
		}
	}
	name := m.FullName()
	all := append([]Val{iv}, args...)
	if x.hooks.call != nil && x.hooks.call(st, "invoke:"+normName(name), all, k) {
		return
	}
	if x.openCall != nil && x.openCall(st, "invoke:"+name, m.Type().(*types.Signature).Results(), k) {
		return
	}
	if iv.dyn != nil {
		ms := x.P.prog.MethodSets.MethodSet(iv.dyn)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			x.unsupported("no method %s on %s", m.Name(), iv.dyn)
		}
		fn := x.P.prog.MethodValue(sel)
		recv := iv.val
		if recv == nil {
			recv = x.unpay(iv.dyn, iv.pay)
		}
		x.callFunc(st, &VFunc{fn: fn, sig: fn.Signature}, append([]Val{recv}, args...), pos, k)
		return
	}
	if md := ifaceModels[normName(name)]; md != nil {
		x.used[name] = true
		md(x, st, iv, args, pos, k)
		return
	}
	x.unsupported("no model for interface method %s", name)
}

func (x *Exec) runDefers(st *State, fr *frame, ds []deferred, k func(*State, *frame)) {
	if len(ds) == 0 {
		k(st, fr)
		return
	}
	d := ds[len(ds)-1]
	x.callAny(st, d.call, d.fn, d.args, d.call.Pos(), func(s *State, _ []Val) {
		x.runDefers(s, fr.clone(), ds[:len(ds)-1], k)
	})
}

func (x *Exec) builtin(st *State, name string, ats []types.Type, args []Val, sig *types.Signature, pos token.Pos, k func(*State, []Val)) {
	c := x.c
	one := func(v Val) { k(st, []Val{v}) }
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *VSlice:
			if name == "cap" {
				one(v.cap)
			} else {
				one(v.len)
			}
			return
		case *VArr:
			one(c.Int(int64(len(v.elems))))
			return
		case *VPtr:
			one(c.Int(v.arrN))
			return
		case *Term:
			switch t := ats[0].Underlying().(type) {
			case *types.Map:
				n := x.rdHeap(st, mapCls(t)+".len", []*Term{v}, SInt)
				if v.isInt() && v.n.Sign() == 0 {
					n = c.Int(0)
				}
				if x.guard != nil {
					x.guard(st, mapCls(t)+".dom", []*Term{v}, false)
				}
				x.factRange(n, zInt(c).n, maxLen)
				one(n)
				return
			case *types.Chan:
				n := c.Fresh("chanlen", SInt)
				x.factRange(n, zInt(c).n, maxLen)
				one(n)
				return
			}
			if s, ok := c.strVal[v]; ok {
				one(c.Int(int64(len(s))))
				return
			}
			one(c.App("strlen", SInt, v))
			return
		}
	case "append":
		x.appendSlice(st, ats, args, pos, func(s *State, v Val) { k(s, []Val{v}) })
		return
	case "copy":
		x.copySlice(st, args, pos, k)
		return
	case "delete":
		m := ats[0].Underlying().(*types.Map)
		x.mapDelete(st, m, args[0].(*Term), args[1])
		k(st, nil)
		return
	case "clear":
		switch t := ats[0].Underlying().(type) {
		case *types.Map:
			x.clearMap(st, t, args[0].(*Term))
			k(st, nil)
			return
		}
	case "close":
		ch := args[0].(*Term)
		x.safe(st, "close of a nil channel", pos, c.Ne(ch, c.Int(0)))
		x.safe(st, "close of a closed channel", pos, c.Not(x.rdHeap(st, "chan.closed", []*Term{ch}, SBool)))
		x.wrHeap(st, "chan.closed", []*Term{ch}, SBool, c.Bool(true))
		st.events = append(st.events, Event{name: "close", args: []Val{ch}})
		if x.hooks.call != nil {
			x.hooks.call(st, "chan.close", []Val{ch}, nil)
		}
		k(st, nil)
		return
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if basicKind(ats[0]) == "float" || basicKind(ats[0]) == "string" {
				x.unsupported("%s on %s", name, ats[0])
			}
			if name == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		one(r)
		return
	case "print", "println":
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		one(args[0])
		return
	case "recover":
		one(&VIface{})
		return
	}
	x.unsupported("builtin %s", name)
}

// appendSlice follows Go's semantics. The ghost $frontier[arr] is the end of the longest slice
// made over a backing: an append exactly there cannot be told apart from one in place (nothing
// sees beyond the frontier), so it is done in place whatever the capacity. Elsewhere it is in
// place when the capacity suffices and moves to a new backing otherwise.
func (x *Exec) appendSlice(st *State, ats []types.Type, args []Val, pos token.Pos, k func(*State, Val)) {
	c := x.c
	x.use(st)
	s := args[0].(*VSlice)
	var addLen *Term
	var add *VSlice
	switch a := args[1].(type) {
	case *VSlice:
		add, addLen = a, a.len
	case *Term:
		addLen = c.App("strlen", SInt, a)
		if sv, ok := c.strVal[a]; ok {
			addLen = c.Int(int64(len(sv)))
		}
	}
	if addLen.isInt() && addLen.n.Sign() == 0 {
		k(st, s)
		return
	}
	end := c.Add(s.off, s.len)
	put := func(st *State, arr *Term, from *Term, keepCap bool) {
		x.use(st)
		res := &VSlice{elem: s.elem, arr: arr, off: s.off, len: c.Add(s.len, addLen), cap: s.cap}
		x.encode(s.elem, x.zero(s.elem), func(suf string, so Sort, z *Term) {
			key := "[]" + className(s.elem) + suf
			h := x.heapArr(st, key, 2, so)
			content := c.Select(h, from)
			if from.isInt() && from.n.Sign() == 0 {
				content = c.ConstArr(arrSort(SInt, so), z)
			}
			switch {
			case add == nil:
				src := c.App("bytesof", arrSort(SInt, SInt), args[1].(*Term))
				content = x.spliced(content, src, end, c.Int(0), addLen)
			case addLen.isInt() && addLen.n.IsInt64() && addLen.n.Int64() <= 8:
				for i := int64(0); i < addLen.n.Int64(); i++ {
					content = c.Store(content, c.Add(end, c.Int(i)), c.SelectN(h, []*Term{add.arr, c.Add(add.off, c.Int(i))}))
				}
			default:
				content = x.spliced(content, c.Select(h, add.arr), end, add.off, addLen)
			}
			if x.guard != nil {
				x.guard(st, key, []*Term{arr, end}, true)
			}
			st.heap[key] = c.Store(h, arr, content)
		})
		x.wrHeap(st, "$frontier", []*Term{arr}, SInt, c.Add(end, addLen))
		if !keepCap {
			res.cap = c.Fresh("cap", SInt)
			x.factRange(res.cap, c.Int(0).n, maxLen)
			x.assume(st, c.Le(res.len, res.cap), false)
		}
		k(st, res)
	}
	if s.arr.isInt() && s.arr.n.Sign() == 0 {
		put(st, x.newRef(), s.arr, false)
		return
	}
	fr := x.rdHeap(st, "$frontier", []*Term{s.arr}, SInt)
	atEnd := c.Eq(fr, end)
	if x.dry > 0 && x.growing[s.arr] || atEnd.isTrue() || st.pcset[atEnd] {
		put(st, s.arr, s.arr, false)
		return
	}
	if _, can := x.decide(st, atEnd); !can {
		put(st, s.arr, s.arr, false)
		return
	}
	// the exact rule
	fits := c.Le(c.Add(s.len, addLen), s.cap)
	x.fork(st, fits, func(s1 *State) { put(s1, s.arr, s.arr, true) }, func(s1 *State) {
		x.use(s1)
		put(s1, x.newRef(), s.arr, false)
	})
}

// spliced is old with src[off..off+n) written at position at.
func (x *Exec) spliced(old, src, at, off, n *Term) *Term {
	c := x.c
	i := c.TempBV()
	rel := c.Sub(i, at)
	return c.Lam(i, c.Ite(c.And(c.Le(c.Int(0), rel), c.Lt(rel, n)), c.Select(src, c.Add(off, rel)), c.Select(old, i)))
}

func (x *Exec) copySlice(st *State, args []Val, pos token.Pos, k func(*State, []Val)) {
	c := x.c
	d := args[0].(*VSlice)
	s, ok := args[1].(*VSlice)
	if !ok {
		x.unsupported("copy from a string")
	}
	n := c.Ite(c.Le(d.len, s.len), d.len, s.len)
	x.encode(d.elem, x.zero(d.elem), func(suf string, so Sort, _ *Term) {
		key := "[]" + className(d.elem) + suf
		h := x.heapArr(st, key, 2, so)
		if x.guard != nil {
			x.guard(st, key, []*Term{d.arr, d.off}, true)
		}
		st.heap[key] = c.Store(h, d.arr, x.spliced(c.Select(h, d.arr), c.Select(h, s.arr), d.off, s.off, n))
	})
	k(st, []Val{n})
}

func zeroTerm(c *Ctx, s Sort) *Term {
	if s == SBool {
		return c.Bool(false)
	}
	return c.Int(0)
}

// ---------- models of library functions ----------

type modelFn func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val))
type ifaceFn func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val))

var models = map[string]modelFn{}
var ifaceModels = map[string]ifaceFn{}

func m0(names string, f modelFn) {
	for _, n := range strings.Fields(names) {
		models[n] = f
	}
}

func (x *Exec) errForks(st *State, label string, k func(*State, Val)) {
	ok := x.c.Fresh("ok."+label, SBool)
	x.fork(st, ok, func(s *State) { k(s, &VIface{}) }, func(s *State) { k(s, x.freshErr(label)) })
}

type errType struct{ types.Type }

func (x *Exec) freshErr(label string) *VIface {
	t := x.c.Fresh("errtag."+label, SInt)
	p := x.c.Fresh("err."+label, SInt)
	if x.cur != nil {
		x.assume(x.cur, x.c.Ge(t, x.c.Int(1<<30)), false)
	}
	return &VIface{tag: t, pay: p}
}

func (x *Exec) sub(p *VPtr, suf string) *VPtr {
	return &VPtr{cls: p.cls + suf, idx: p.idx}
}

func (x *Exec) rd(st *State, p *VPtr, suf string, s Sort) *Term {
	k := p.cls + suf
	if x.guard != nil {
		x.guard(st, k, p.idx, false)
	}
	return x.rdHeap(st, k, p.idx, s)
}
func (x *Exec) wr(st *State, p *VPtr, suf string, s Sort, v *Term) {
	k := p.cls + suf
	if x.guard != nil {
		x.guard(st, k, p.idx, true)
	}
	x.wrHeap(st, k, p.idx, s, v)
}

// world: other goroutines add to a shared word right before an atomic operation on it.
func (x *Exec) world(st *State, p *VPtr, kind string) {
	if !x.shared[p.cls] || x.inSpec > 0 {
		return
	}
	c := x.c
	d := c.Fresh("others", SInt)
	x.factRange(d, big.NewInt(-1<<61), big.NewInt(1<<61))
	x.wrHeap(st, p.cls, p.idx, SInt, c.Wrap(kind, c.Add(x.rdHeap(st, p.cls, p.idx, SInt), d)))
	var none []*Term
	x.wrHeap(st, "$others", none, SInt, c.Add(x.rdHeap(st, "$others", none, SInt), d))
}

func init() {
	atom := func(kind string) {
		T := "sync/atomic." + map[string]string{"s64": "Int64", "s32": "Int32", "u64": "Uint64", "u32": "Uint32"}[kind]
		m0(T+".Load", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			p := a[0].(*VPtr)
			x.nonNil(st, p, pos)
			x.world(st, p, kind)
			v := x.rd(st, p, "", SInt)
			x.rangeFact(v, kind)
			k(st, []Val{v})
		})
		m0(T+".Store", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			x.nonNil(st, a[0].(*VPtr), pos)
			x.world(st, a[0].(*VPtr), kind)
			x.wr(st, a[0].(*VPtr), "", SInt, a[1].(*Term))
			k(st, nil)
		})
		m0(T+".Add", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			p := a[0].(*VPtr)
			x.nonNil(st, p, pos)
			x.world(st, p, kind)
			v := x.rd(st, p, "", SInt)
			x.rangeFact(v, kind)
			n := x.c.Wrap(kind, x.c.Add(v, a[1].(*Term)))
			x.wr(st, p, "", SInt, n)
			k(st, []Val{n})
		})
		m0(T+".Swap", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			p := a[0].(*VPtr)
			x.world(st, p, kind)
			v := x.rd(st, p, "", SInt)
			x.rangeFact(v, kind)
			x.wr(st, p, "", SInt, a[1].(*Term))
			k(st, []Val{v})
		})
		m0(T+".CompareAndSwap", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			p := a[0].(*VPtr)
			x.world(st, p, kind)
			v := x.rd(st, p, "", SInt)
			x.rangeFact(v, kind)
			x.fork(st, x.c.Eq(v, a[1].(*Term)), func(s *State) {
				x.wr(s, p, "", SInt, a[2].(*Term))
				k(s, []Val{x.c.Bool(true)})
			}, func(s *State) { k(s, []Val{x.c.Bool(false)}) })
		})
	}
	for _, kd := range []string{"s64", "s32", "u64", "u32"} {
		atom(kd)
	}
	m0("sync/atomic.Bool.Load", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.rd(st, a[0].(*VPtr), "", SBool)})
	})
	m0("sync/atomic.Bool.Store", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.wr(st, a[0].(*VPtr), "", SBool, a[1].(*Term))
		k(st, nil)
	})
	m0("sync/atomic.Bool.Swap", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		v := x.rd(st, a[0].(*VPtr), "", SBool)
		x.wr(st, a[0].(*VPtr), "", SBool, a[1].(*Term))
		k(st, []Val{v})
	})
	m0("sync/atomic.Bool.CompareAndSwap", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		v := x.rd(st, a[0].(*VPtr), "", SBool)
		x.fork(st, x.c.Eq(v, a[1].(*Term)), func(s *State) {
			x.wr(s, a[0].(*VPtr), "", SBool, a[2].(*Term))
			k(s, []Val{x.c.Bool(true)})
		}, func(s *State) { k(s, []Val{x.c.Bool(false)}) })
	})
	// functions on plain words
	m0("sync/atomic.LoadInt64 sync/atomic.LoadUint32 sync/atomic.LoadInt32 sync/atomic.LoadUint64", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.load(st, a[0].(*VPtr), pos)})
	})
	m0("sync/atomic.StoreInt64 sync/atomic.StoreUint32 sync/atomic.StoreInt32 sync/atomic.StoreUint64", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.store(st, a[0].(*VPtr), a[1], pos)
		k(st, nil)
	})
	m0("sync/atomic.AddInt64 sync/atomic.AddUint32 sync/atomic.AddInt32 sync/atomic.AddUint64", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		n := x.c.Wrap(basicKind(p.elem), x.c.Add(x.load(st, p, pos).(*Term), a[1].(*Term)))
		x.store(st, p, n, pos)
		k(st, []Val{n})
	})
	m0("sync/atomic.CompareAndSwapUint32 sync/atomic.CompareAndSwapInt32 sync/atomic.CompareAndSwapInt64 sync/atomic.CompareAndSwapUint64", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		v := x.load(st, p, pos).(*Term)
		x.fork(st, x.c.Eq(v, a[1].(*Term)), func(s *State) {
			x.store(s, p, a[2], pos)
			k(s, []Val{x.c.Bool(true)})
		}, func(s *State) { k(s, []Val{x.c.Bool(false)}) })
	})

	lockf := func(acq, shared bool) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			p := a[0].(*VPtr)
			x.nonNil(st, p, pos)
			c := x.c
			suf := ".held"
			if shared {
				suf = ".readers"
			}
			if p.cls == "" {
				x.unsupported("lock in a local")
			}
			h := x.rdHeap(st, p.cls+suf, p.idx, SInt)
			if acq {
				hw := x.rdHeap(st, p.cls+".held", p.idx, SInt)
				x.safe(st, "lock not already held by this goroutine", pos, c.Eq(hw, c.Int(0)))
				x.wrHeap(st, p.cls+suf, p.idx, SInt, c.Add(h, c.Int(1)))
				if x.onLock != nil {
					x.onLock(st, p.cls, p.idx, true)
				}
			} else {
				x.safe(st, "unlock of a held lock", pos, c.Ge(h, c.Int(1)))
				if x.onLock != nil {
					x.onLock(st, p.cls, p.idx, false)
				}
				x.wrHeap(st, p.cls+suf, p.idx, SInt, c.Sub(x.rdHeap(st, p.cls+suf, p.idx, SInt), c.Int(1)))
			}
			k(st, nil)
		}
	}
	m0("sync.Mutex.Lock sync.RWMutex.Lock", lockf(true, false))
	m0("sync.Mutex.Unlock sync.RWMutex.Unlock", lockf(false, false))
	m0("sync.RWMutex.RLock", lockf(true, true))
	m0("sync.RWMutex.RUnlock", lockf(false, true))
	m0("sync.Mutex.TryLock", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		got := x.c.Fresh("trylock", SBool)
		x.fork(st, got, func(s *State) {
			lockf(true, false)(x, s, fn, a, pos, func(s2 *State, _ []Val) { k(s2, []Val{x.c.Bool(true)}) })
		}, func(s *State) { k(s, []Val{x.c.Bool(false)}) })
	})

	m0("sync.Once.Do", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		done := x.rdHeap(st, p.cls+".done", p.idx, SBool)
		x.fork(st, done, func(s *State) { k(s, nil) }, func(s *State) {
			x.wrHeap(s, p.cls+".done", p.idx, SBool, x.c.Bool(true))
			x.callFunc(s, a[1].(*VFunc), nil, pos, func(s2 *State, _ []Val) { k(s2, nil) })
		})
	})
	m0("sync.WaitGroup.Add", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		x.wrHeap(st, p.cls+".n", p.idx, SInt, x.c.Add(x.rdHeap(st, p.cls+".n", p.idx, SInt), a[1].(*Term)))
		k(st, nil)
	})
	m0("sync.WaitGroup.Done", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		x.wrHeap(st, p.cls+".n", p.idx, SInt, x.c.Sub(x.rdHeap(st, p.cls+".n", p.idx, SInt), x.c.Int(1)))
		k(st, nil)
	})
	m0("sync.WaitGroup.Wait", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		st.events = append(st.events, Event{name: "wait", args: []Val{a[0]}})
		x.bump(st, "$wgwaits")
		k(st, nil)
	})
	m0("sync.Pool.Get", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		// nil, or something put there before: in this program always a *rng64-like pointer
		x.hooksPoolGet(st, a[0].(*VPtr), k)
	})
	m0("sync.Pool.Put", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv := a[1].(*VIface)
		if iv.dyn != nil {
			x.poolType(a[0].(*VPtr).cls, iv.dyn)
		}
		k(st, nil)
	})

	// time
	m0("time.Now", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.now(st)})
	})
	m0("time.Since", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Sub(x.now(st), a[0].(*Term))})
	})
	m0("time.Time.Sub", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Sub(a[0].(*Term), a[1].(*Term))})
	})
	m0("time.Time.Add", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Add(a[0].(*Term), a[1].(*Term))})
	})
	m0("time.Time.After", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Gt(a[0].(*Term), a[1].(*Term))})
	})
	m0("time.Time.Before", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Lt(a[0].(*Term), a[1].(*Term))})
	})
	m0("time.Time.UnixNano", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{a[0]})
	})
	m0("time.Time.UnixMilli", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Div(a[0].(*Term), x.c.Int(1000000))})
	})
	m0("time.Time.IsZero", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Eq(a[0].(*Term), x.c.Int(zeroTime))})
	})
	m0("time.Unix", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Add(x.c.Scale(a[0].(*Term), x.c.Int(1000000000).n), a[1].(*Term))})
	})
	// tickers
	m0("time.NewTicker", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.safe(st, "positive ticker interval", pos, x.c.Gt(a[0].(*Term), x.c.Int(0)))
		r := x.newRef()
		t := fn.Signature.Results().At(0).Type()
		st.events = append(st.events, Event{name: "ticker", args: []Val{r, a[0]}})
		el := t.(*types.Pointer).Elem()
		x.wrHeap(st, className(el)+".C", []*Term{r}, SInt, x.c.App("inj.tickchan", SInt, r))
		x.assume(st, x.c.Gt(x.c.App("inj.tickchan", SInt, r), x.c.Int(1<<60)), false)
		k(st, []Val{&VPtr{cls: className(el), idx: []*Term{r}, elem: el}})
	})
	noop := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) { k(st, nil) }
	m0("time.Ticker.Stop time.Ticker.Reset", noop)
	m0("runtime.Gosched", noop)
	m0("runtime.GOMAXPROCS runtime.NumCPU", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		n := x.c.Var("GOMAXPROCS", SInt)
		x.use(st)
		x.factRange(n, bigOne, maxLen)
		k(st, []Val{n})
	})
	m0("vsa.runtime_procPin", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		v := x.c.Fresh("pid", SInt)
		x.factRange(v, zInt(x.c).n, maxLen)
		k(st, []Val{v})
	})
	m0("vsa.runtime_procUnpin", noop)

	// formatting: a function of its arguments
	m0("fmt.Sprintf fmt.Sprint", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.sprintf(st, a)})
	})
	m0("fmt.Errorf", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.freshErr("errorf")})
	})
	m0("errors.New", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.freshErr("new")})
	})
	printer := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		n := x.c.Fresh("n", SInt)
		st.events = append(st.events, Event{name: "print", args: a})
		k(st, []Val{n, &VIface{}})
	}
	m0("fmt.Printf fmt.Println fmt.Print", printer)
	m0("log.Printf log.Println log.Print", noop)
	m0("strings.Repeat strings.ToLower strings.ToUpper strings.TrimSpace", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		var ts []*Term
		for _, v := range a {
			ts = append(ts, x.flatten(v)...)
		}
		k(st, []Val{x.c.App("str."+sanitize(fnName(fn)), SInt, ts...)})
	})
	m0("strconv.FormatInt strconv.Itoa strconv.FormatUint", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.App("inj.sprintf."+sanitize("%d"), SInt, x.c.Str("%d"), a[0].(*Term))})
	})

	// sync.Map
	m0("sync.Map.Load", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		v, dom := x.smGet(st, p, a[1])
		x.fork(st, dom, func(s *State) { k(s, []Val{v, x.c.Bool(true)}) }, func(s *State) { k(s, []Val{&VIface{}, x.c.Bool(false)}) })
	})
	m0("sync.Map.LoadOrStore", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		x.envSM(st, p, a[1])
		v, dom := x.smGet(st, p, a[1])
		x.fork(st, dom, func(s *State) { k(s, []Val{v, x.c.Bool(true)}) }, func(s *State) {
			x.smPut(s, p, a[1], a[2].(*VIface))
			k(s, []Val{a[2], x.c.Bool(false)})
		})
	})
	m0("sync.Map.Store", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.smPut(st, a[0].(*VPtr), a[1], a[2].(*VIface))
		k(st, nil)
	})
	m0("sync.Map.LoadAndDelete", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		p := a[0].(*VPtr)
		x.envSM(st, p, a[1])
		v, dom := x.smGet(st, p, a[1])
		x.fork(st, dom, func(s *State) {
			x.smDel(s, p, a[1])
			k(s, []Val{v, x.c.Bool(true)})
		}, func(s *State) { k(s, []Val{&VIface{}, x.c.Bool(false)}) })
	})
	m0("sync.Map.Delete", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.smDel(st, a[0].(*VPtr), a[1])
		k(st, nil)
	})
	m0("sync.Map.Range", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.smRange(st, a[0].(*VPtr), a[1].(*VFunc), pos, k)
	})
	ifaceModels["context.Context.Deadline"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Fresh("deadline", SInt), x.c.Fresh("hasdl", SBool)})
	}
	ifaceModels["context.Context.Err"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.errForks(st, "ctx", func(s *State, e Val) { k(s, []Val{e}) })
	}
	ifaceModels["error.Error"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.Fresh("errmsg", SInt)})
	}
}

// now is a fresh, non-decreasing clock reading (nanoseconds).
func (x *Exec) now(st *State) *Term {
	c := x.c
	x.use(st)
	prev := x.rdHeap(st, "$now", nil, SInt)
	t := c.Fresh("now", SInt)
	x.factRange(prev, c.Int(0).n, c.Int(1<<61).n)
	x.factRange(t, c.Int(0).n, c.Int(1<<61).n)
	x.assume(st, c.Le(prev, t), false)
	x.wrHeap(st, "$now", nil, SInt, t)
	return t
}

func (x *Exec) sprintf(st *State, a []Val) *Term {
	c := x.c
	var ts []*Term
	name := "sprint"
	rest := a
	if t, ok := a[0].(*Term); ok {
		ts = append(ts, t)
		name = "inj.sprintf." + sanitize(c.strVal[t])
		rest = a[1:]
	}
	var kinds []types.Type
	for _, v := range rest {
		sl, ok := v.(*VSlice)
		if !ok || !sl.len.isInt() {
			return c.Fresh("sprintf", SInt)
		}
		for i := int64(0); i < sl.len.n.Int64(); i++ {
			p := &VPtr{cls: "[]" + className(sl.elem), idx: []*Term{sl.arr, c.Add(sl.off, c.Int(i))}, elem: sl.elem}
			iv := x.load(st, p, token.NoPos).(*VIface)
			_, pay := x.ifaceTerms(iv)
			ts = append(ts, pay)
			kinds = append(kinds, iv.dyn)
		}
	}
	if f, ok := c.strVal[ts[0]]; ok && name != "sprint" {
		if t := x.formatted(f, ts[1:], kinds); t != nil {
			return t
		}
	}
	if s, ok := c.strVal[ts[0]]; ok && len(ts) == 1 && !strings.Contains(s, "%") {
		return ts[0]
	}
	if len(ts) != 2 { // injectivity is claimed for single-verb formats only
		name = strings.Replace(name, "inj.", "", 1)
	}
	return c.App(name, SInt, ts...)
}

// formatted is the text of a format with plain verbs for strings and integers, as a concatenation.
func (x *Exec) formatted(f string, ts []*Term, kinds []types.Type) *Term {
	c := x.c
	var out []*Term
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if n >= len(ts) || kinds[n] == nil {
			return nil
		}
		b, ok := kinds[n].(*types.Basic)
		if !ok {
			return nil
		}
		out = append(out, c.Str(lit))
		lit = ""
		switch {
		case b.Info()&types.IsString != 0 && (f[i] == 's' || f[i] == 'v'):
			out = append(out, ts[n])
		case b.Info()&types.IsInteger != 0 && (f[i] == 'd' || f[i] == 'v'):
			out = append(out, x.decText(ts[n]))
		default:
			return nil
		}
		n++
	}
	if n != len(ts) {
		return nil
	}
	return x.cat(append(out, c.Str(lit))...)
}

// The contracts are checked in parallel; what is found about the program is shared.
type typeTable struct {
	mu sync.Mutex
	m  map[string]types.Type
}

func (t *typeTable) get(k string) (types.Type, bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.m[k]
	return v, ok
}

func (t *typeTable) put(k string, v types.Type) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.m == nil {
		t.m = map[string]types.Type{}
	}
	t.m[k] = v
}

var poolTypes, smTypes typeTable

func (x *Exec) poolType(cls string, t types.Type) { poolTypes.put(cls, t) }
func (x *Exec) hooksPoolGet(st *State, p *VPtr, k func(*State, []Val)) {
	t, _ := poolTypes.get(p.cls)
	if t == nil {
		// not yet known: look for the asserted type at the call sites (first use is before any Put)
		t = x.guessPoolType(p.cls)
	}
	has := x.c.Fresh("pooled", SBool)
	x.fork(st, has, func(s *State) {
		if t == nil {
			return
		}
		r := x.c.Fresh("poolobj", SInt)
		x.factRange(r, bigOne, x.c.Int((1<<40)-1).n)
		k(s, []Val{&VIface{tag: x.tagOf(t), pay: r, dyn: t}})
	}, func(s *State) { k(s, []Val{&VIface{}}) })
}

// guessPoolType scans the loaded functions for what is put into the pool.
func (x *Exec) guessPoolType(cls string) types.Type {
	for _, f := range x.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := call.Call.StaticCallee()
				if cal == nil || normName(cal.RelString(nil)) != "sync.Pool.Put" {
					continue
				}
				fa, ok := call.Call.Args[0].(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if className(st)+"."+st.Underlying().(*types.Struct).Field(fa.Field).Name() != cls {
					continue
				}
				if mi, ok := call.Call.Args[1].(*ssa.MakeInterface); ok {
					poolTypes.put(cls, mi.X.Type())
					return mi.X.Type()
				}
			}
		}
	}
	return nil
}

// ---------- sync.Map ----------

func (x *Exec) smKey(v Val) *Term {
	iv := v.(*VIface)
	_, p := x.ifaceTerms(iv)
	return p
}
func (x *Exec) smGet(st *State, p *VPtr, key Val) (*VIface, *Term) {
	k := x.smKey(key)
	idx := append(append([]*Term(nil), p.idx...), k)
	dom := x.rdHeap(st, p.cls+".dom", idx, SBool)
	tag := x.rdHeap(st, p.cls+".vtag", idx, SInt)
	pay := x.rdHeap(st, p.cls+".vpay", idx, SInt)
	x.smFacts(st, p, idx, dom)
	if t := x.smType(p.cls); t != nil {
		return &VIface{tag: x.tagOf(t), pay: pay, dyn: t}, dom
	}
	return x.mkIface(tag, pay), dom
}

// smFacts: what is stored under a key has the one type ever stored there.
func (x *Exec) smFacts(st *State, p *VPtr, idx []*Term, dom *Term) {
	c := x.c
	if x.noFacts {
		return
	}
	pay := x.rdHeap(st, p.cls+".vpay", idx, SInt)
	if pay.hasB {
		return
	}
	base := pay
	for base.op == "select" {
		base = base.args[0]
	}
	if base.op == "var" && strings.HasPrefix(base.name, "H.") {
		x.assume(st, c.Imp(dom, c.And(c.Ge(pay, c.Int(1)), c.Lt(pay, c.Int(1<<40)))), false)
	}
}
func (x *Exec) smPut(st *State, p *VPtr, key Val, v *VIface) {
	k := x.smKey(key)
	idx := append(append([]*Term(nil), p.idx...), k)
	tag, pay := x.ifaceTerms(v)
	x.wrHeap(st, p.cls+".dom", idx, SBool, x.c.Bool(true))
	x.wrHeap(st, p.cls+".vtag", idx, SInt, tag)
	x.wrHeap(st, p.cls+".vpay", idx, SInt, pay)
}
func (x *Exec) smDel(st *State, p *VPtr, key Val) {
	k := x.smKey(key)
	idx := append(append([]*Term(nil), p.idx...), k)
	x.wrHeap(st, p.cls+".dom", idx, SBool, x.c.Bool(false))
}

// envSM lets other goroutines act on the entry between two operations of this call.
func (x *Exec) envSM(st *State, p *VPtr, key Val) {
	if x.hooks.call != nil {
		x.hooks.call(st, "env.syncmap", []Val{p, key}, nil)
	}
}

// smType finds the single dynamic type stored in this sync.Map by the program.
func (x *Exec) smType(cls string) types.Type {
	if t, ok := smTypes.get(cls); ok {
		return t
	}
	var found types.Type
	bad := false
	for _, f := range x.P.fns {
		x.scanFn(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			cal := call.Call.StaticCallee()
			if cal == nil {
				return
			}
			n := normName(cal.RelString(nil))
			vi := 2
			if n != "sync.Map.LoadOrStore" && n != "sync.Map.Store" && n != "sync.Map.Swap" {
				return
			}
			fa, ok := call.Call.Args[0].(*ssa.FieldAddr)
			if !ok {
				if g, ok := call.Call.Args[0].(*ssa.Global); !ok || "G:"+g.String() != cls {
					return
				}
			} else {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if className(st)+"."+st.Underlying().(*types.Struct).Field(fa.Field).Name() != cls {
					return
				}
			}
			if mi, ok := call.Call.Args[vi].(*ssa.MakeInterface); ok {
				if found != nil && !types.Identical(found, mi.X.Type()) {
					bad = true
				}
				found = mi.X.Type()
			} else {
				bad = true
			}
		})
	}
	if bad {
		found = nil
	}
	smTypes.put(cls, found)
	return found
}

func (x *Exec) scanFn(f *ssa.Function, do func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
	for _, a := range f.AnonFuncs {
		x.scanFn(a, do)
	}
}

func (x *Exec) smRange(st *State, p *VPtr, cb *VFunc, pos token.Pos, k func(*State, []Val)) {
	c := x.c
	kt := types.Typ[types.String]
	dom := c.SelectN(x.heapArr(st, p.cls+".dom", len(p.idx)+1, SBool), p.idx)
	vpay := c.SelectN(x.heapArr(st, p.cls+".vpay", len(p.idx)+1, SInt), p.idx)
	n := c.Fresh("smlen", SInt)
	x.use(st)
	x.factRange(n, c.Int(0).n, maxLen)
	en := x.enumerate(st, dom, n)
	vt := x.smType(p.cls)
	if vt == nil {
		x.unsupported("sync.Map with several value types")
	}
	x.lastEnum = en
	posCell := x.newCell(st, c.Int(0), types.Typ[types.Int])
	x.loop(st, "sync.Map.Range", nil, func(s *State, _ []Val, back func(*State, []Val), exit func(*State)) {
		q := x.load(s, posCell, pos).(*Term)
		x.fork(s, c.Lt(q, n), func(s1 *State) {
			x.store(s1, posCell, c.Add(q, c.Int(1)), pos)
			x.use(s1)
			key := en.key(q)
			pay := c.Select(vpay, key)
			x.assume(s1, c.Select(dom, key), false)
			base := pay
			for base.op == "select" {
				base = base.args[0]
			}
			if base.op == "var" && strings.HasPrefix(base.name, "H.") {
				x.assume(s1, c.And(c.Ge(pay, c.Int(1)), c.Lt(pay, c.Int(1<<40))), false)
			}
			kv := &VIface{tag: x.tagOf(kt), pay: key, dyn: kt}
			vv := &VIface{tag: x.tagOf(vt), pay: pay, dyn: vt}
			x.callFunc(s1, cb, []Val{kv, vv}, pos, func(s2 *State, rs []Val) {
				x.fork(s2, rs[0].(*Term), func(s3 *State) { back(s3, nil) }, func(s3 *State) { exit(s3) })
			})
		}, func(s1 *State) { exit(s1) })
	}, func(s *State) { k(s, nil) })
}
