package main

import (
	"go/token"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// HTTP: one response. Ghosts: $hdr name -> value of the header map, $status (0 until the status line
// is sent), $body. Events: http.status (a0 the code) when the status line is sent, explicitly or by
// the first write; http.again when a second one is attempted. A query is a function of the URL.
func init() {
	// other requests and commits may change any accumulator before each call on one
	setups["requests"] = func(x *Exec, st *State, ct *Contract, vars map[string]Val) {
		x.before = func(s *State, name string) {
			if strings.HasPrefix(name, "vsa.VSA.") {
				x.use(s)
				for _, h := range []string{"$N", "$S"} {
					x.heapArr(s, h, 1, SInt)
					s.heap[h] = x.c.Fresh("env", arrSort(SInt, SInt))
				}
				x.use(s)
			}
		}
	}
	send := func(x *Exec, st *State, code *Term, implicit bool, k func(*State)) {
		c := x.c
		x.use(st)
		x.fork(st, c.Eq(x.rdHeap(st, "$status", nil, SInt), c.Int(0)), func(s *State) {
			x.event(s, "http.status", code)
			x.use(s)
			x.wrHeap(s, "$status", nil, SInt, code)
			k(s)
		}, func(s *State) {
			if !implicit {
				x.event(s, "http.again", code)
			}
			k(s)
		})
	}
	name := func(x *Exec, v Val) *Term {
		t := v.(*Term)
		if s, ok := x.c.strVal[t]; ok {
			return x.c.Str(textproto.CanonicalMIMEHeaderKey(s))
		}
		return x.c.App("canonical", SInt, t)
	}
	write := func(x *Exec, st *State, k func(*State, []Val)) {
		send(x, st, x.c.Int(200), true, func(s *State) {
			x.errForks(s, "write", func(s2 *State, e Val) { k(s2, []Val{x.c.Fresh("written", SInt), e}) })
		})
	}
	ifaceModels["net/http.ResponseWriter.Header"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		_, pay := x.ifaceTerms(iv)
		k(st, []Val{x.c.App("header", SInt, pay)})
	}
	ifaceModels["net/http.ResponseWriter.WriteHeader"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		send(x, st, a[0].(*Term), false, func(s *State) { k(s, nil) })
	}
	ifaceModels["net/http.ResponseWriter.Write"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		write(x, st, k)
	}
	set := func(x *Exec, st *State, n, v *Term) {
		x.use(st)
		x.wrHeap(st, "$hdr", []*Term{n}, SInt, v)
	}
	m0("net/http.Header.Set", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		set(x, st, name(x, a[1]), a[2].(*Term))
		k(st, nil)
	})
	m0("net/http.Header.Del", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		set(x, st, name(x, a[1]), x.c.Str(""))
		k(st, nil)
	})
	m0("net/http.Error", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		set(x, st, x.c.Str("Content-Type"), x.c.Str("text/plain; charset=utf-8"))
		send(x, st, a[2].(*Term), false, func(s *State) { k(s, nil) })
	})
	m0("net/url.URL.Query", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.App("urlquery", SInt, x.refOf(a[0]))})
	})
	m0("net/url.Values.Get", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.App("urlvalue", SInt, a[0].(*Term), a[1].(*Term))})
	})
	toWriter := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		w, ok := a[0].(*VIface)
		if !ok {
			x.unsupported("Fprint to %T", a[0])
		}
		if w.dyn != nil || x.spec == nil || x.spec.pkg != "vsa/internal/ratelimiter/api" {
			x.external(st, "fmt.Fprintf", fn.Signature, a, pos, k)
			return
		}
		write(x, st, k)
	}
	for _, f := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString"} {
		m0(f, toWriter)
	}
}
