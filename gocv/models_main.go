package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// What a main function needs. flag: a setting holds its default until flag.Parse, which gives every
// setting registered before it the value given on the command line, $flag[name], which may be any
// value of its type. os/signal: $notified[ch] holds once SIGTERM and SIGINT are delivered to ch.
// context: $ctxlive[ctx] is cleared by cancelling, $ctxtime[ctx] is the time a context leaves its
// users. Ending the process (os.Exit, log.Fatal) ends the path; it is an obligation of the safety
// class that it does not happen unless the contract has "option exits yes".

type flagDef struct {
	p    *VPtr
	v    Val
	name *Term
}

func (x *Exec) defFlag(st *State, p *VPtr, name Val, def Val, t types.Type, pos token.Pos) {
	c := x.c
	v := x.freshVal(st, "flag", t)
	n := name.(*Term)
	x.safe(st, "a setting is defined once", pos, c.Not(x.rdHeap(st, "$flagdef", []*Term{n}, SBool)))
	x.wrHeap(st, "$flagdef", []*Term{n}, SBool, c.Bool(true))
	x.wrHeap(st, "$flag", []*Term{n}, SInt, x.payOf(t, v))
	x.store(st, p, def, pos)
	st.flags = append(st.flags, flagDef{p, v, n})
}

func init() {
	for n, bt := range map[string]types.Type{"Int64": types.Typ[types.Int64], "Int": types.Typ[types.Int], "Bool": types.Typ[types.Bool],
		"String": types.Typ[types.String], "Float64": types.Typ[types.Float64], "Uint": types.Typ[types.Uint], "Uint64": types.Typ[types.Uint64], "Duration": nil} {
		bt := bt
		m0("flag."+n, func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			t := bt
			if t == nil {
				t = fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			}
			p := x.newObj(st, t)
			x.defFlag(st, p, a[0], a[1], t, pos)
			k(st, []Val{p})
		})
		m0("flag."+n+"Var", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			t := bt
			if t == nil {
				t = fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
			}
			x.defFlag(st, a[0].(*VPtr), a[1], a[2], t, pos)
			k(st, nil)
		})
	}
	m0("flag.Parse", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		for _, f := range st.flags {
			x.store(st, f.p, f.v, pos)
		}
		k(st, nil)
	})
	exit := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		if !x.exits {
			x.safe(st, "the process is not ended", pos, x.c.Bool(false))
		}
	}
	m0("os.Exit log.Fatal log.Fatalf log.Fatalln", exit)
	m0("os/signal.Notify", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		ch := x.refOf(a[0])
		x.notify(st, ch, a[1].(*VSlice), pos)
		k(st, nil)
	})
	m0("os/signal.NotifyContext", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		ctx := x.newContext(st, a[0].(*VIface), nil)
		x.notify(st, x.c.App("ctxdone", SInt, ctx), a[1].(*VSlice), pos)
		k(st, []Val{&VIface{tag: x.c.Int(1 << 29), pay: ctx}, x.cancelFunc(ctx)})
	})
	m0("os/signal.Stop os/signal.Ignore os/signal.Reset", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		if fn.Name() != "Stop" {
			x.unsupported("%s", fn)
		}
		x.wrHeap(st, "$notified", []*Term{x.refOf(a[0])}, SBool, x.c.Bool(false))
		k(st, nil)
	})
	m0("context.Background context.TODO", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		ctx := x.c.Int(1)
		x.wrHeap(st, "$ctxlive", []*Term{ctx}, SBool, x.c.Bool(true))
		x.wrHeap(st, "$ctxtime", []*Term{ctx}, SInt, x.c.BigInt(new(big.Int).Lsh(big.NewInt(1), 62)))
		k(st, []Val{&VIface{tag: x.c.Int(1 << 29), pay: ctx}})
	})
	with := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		var d *Term
		switch {
		case len(a) < 2:
		case fn.Name() == "WithTimeout":
			d = a[1].(*Term)
		default:
			d = x.c.Fresh("ctxtime", SInt)
		}
		ctx := x.newContext(st, a[0].(*VIface), d)
		k(st, []Val{&VIface{tag: x.c.Int(1 << 29), pay: ctx}, x.cancelFunc(ctx)})
	}
	m0("context.WithTimeout context.WithCancel context.WithDeadline", with)
	ifaceModels["context.Context.Done"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		_, p := x.ifaceTerms(iv)
		k(st, []Val{x.c.App("ctxdone", SInt, p)})
	}
}

func (x *Exec) newContext(st *State, parent *VIface, d *Term) *Term {
	c := x.c
	ctx := c.Fresh("ctx", SInt)
	x.use(st)
	x.assume(st, c.Gt(ctx, c.Int(1)), false)
	_, p := x.ifaceTerms(parent)
	t := x.rdHeap(st, "$ctxtime", []*Term{p}, SInt)
	if d != nil {
		t = c.Ite(c.Lt(d, t), d, t)
	}
	x.wrHeap(st, "$ctxtime", []*Term{ctx}, SInt, t)
	x.wrHeap(st, "$ctxlive", []*Term{ctx}, SBool, x.rdHeap(st, "$ctxlive", []*Term{p}, SBool))
	return ctx
}

func (x *Exec) cancelFunc(ctx *Term) *VFunc {
	return &VFunc{model: func(x *Exec, st *State, args []Val, k func(*State, []Val)) {
		x.wrHeap(st, "$ctxlive", []*Term{ctx}, SBool, x.c.Bool(false))
		k(st, nil)
	}}
}

// notify: the signals asked for include SIGINT and SIGTERM, or all of them.
func (x *Exec) notify(st *State, ch *Term, sigs *VSlice, pos token.Pos) {
	c := x.c
	n := 0
	if sigs.len.isInt() {
		n = int(sigs.len.n.Int64())
	} else {
		x.unsupported("signals chosen at run time")
	}
	// os.Interrupt is syscall.SIGINT; syscall.SIGTERM is 15
	want := map[int64]*Term{2: c.Bool(n == 0), 15: c.Bool(n == 0)}
	for i := 0; i < n; i++ {
		iv := x.load(st, &VPtr{cls: "[]" + className(sigs.elem), idx: []*Term{sigs.arr, c.Add(sigs.off, c.Int(int64(i)))}, elem: sigs.elem}, pos).(*VIface)
		_, p := x.ifaceTerms(iv)
		for s := range want {
			want[s] = c.Or(want[s], c.Eq(p, c.Int(s)))
		}
	}
	x.wrHeap(st, "$notified", []*Term{ch}, SBool, c.Or(x.rdHeap(st, "$notified", []*Term{ch}, SBool), c.And(want[2], want[15])))
}
