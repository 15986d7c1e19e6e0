package main

// SMT back end: prints queries, instantiates the axioms of the derived term kinds (wrap, sum,
// bit operations, non-linear products) for the terms that occur, and talks to z3 / cvc5.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type query struct {
	c      *Ctx
	assume []*Term
	goal   *Term // to be proved; nil for a satisfiability check
	wanted []*Term
	inst   []*Term // quantified facts used through ground instances
	text   string
}

type printer struct {
	c       *Ctx
	b       strings.Builder
	decl    strings.Builder
	seen    map[*Term]string
	decls   map[string]bool
	nskel   map[string]int
	vars    map[string]Sort
	lams    map[*Term]bool
	sigs    map[string]string
	pending []*Term
}

var (
	nmul = "nmul"
)

// closure computes the axiom instances for all special terms reachable from ts.
func axiomsFor(c *Ctx, ts, foralls []*Term) []*Term {
	old := c.bounds
	c.bounds = nil
	defer func() { c.bounds = old }()
	var axs []*Term
	seen := map[*Term]bool{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		visit(t)
	}
	var qs []*quantFact
	for _, f := range foralls {
		for _, g := range conjuncts(f) {
			if g.op == "forall" {
				qs = append(qs, newQuantFact(c, g))
			}
		}
	}
	// selectors of other paths do not matter
	apps := map[string]bool{}
	if len(c.posRules) > 0 {
		met := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if met[t] {
				return
			}
			met[t] = true
			if t.op == "app" {
				apps[t.name] = true
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range ts {
			walk(t)
		}
		for _, t := range foralls {
			walk(t)
		}
	}
	done := map[*Term]bool{}
	doneKey := map[string]bool{}
	zero, one := c.Int(0), c.Int(1)
	emit := func(t *Term) {
		if t.isTrue() {
			return
		}
		axs = append(axs, t)
		visit(t)
	}
	for round := 0; round < 4; round++ {
		cur := append([]*Term(nil), order...)
		n0 := len(axs)
		sums := map[*Term][]*Term{}
		var muls []*Term
		idxTerms := map[*Term][]*Term{} // array -> bv-free select indexes
		for _, t := range cur {
			if t.hasB {
				continue
			}
			if t.op == "select" && t.sort != "" && t.args[1].sort == SInt {
				idxTerms[t.args[0]] = append(idxTerms[t.args[0]], t.args[1])
			}
			if t.op == "sum" {
				sums[t.args[2]] = append(sums[t.args[2]], t)
			}
			if t.op == "mul" {
				muls = append(muls, t)
			}
			if done[t] {
				continue
			}
			done[t] = true
			if t.op == "select" {
				for _, f := range c.selRules[t.args[0]] {
					emit(f(t.args[1]))
				}
			}
			switch t.op {
			case "wrap":
				lo, hi, m := wrapRange(t.name)
				k := c.Var(fmt.Sprintf("k!%d", t.id), SInt)
				emit(c.leRaw(c.Sub(c.BigInt(lo), t)))
				emit(c.leRaw(c.Sub(t, c.BigInt(hi))))
				emit(c.mk("eq", SBool, "", nil, nil, t, c.Sub(t.args[0], c.Scale(k, m))))
			case "app":
				switch t.name {
				case "band":
					x, y := t.args[0], t.args[1]
					emit(c.Imp(c.Ge(x, zero), c.And(c.Ge(t, zero), c.Le(t, x))))
					emit(c.Imp(c.Ge(y, zero), c.And(c.Ge(t, zero), c.Le(t, y))))
					for _, p := range [][2]*Term{{x, y}, {y, x}} {
						v, m := p[0], p[1]
						if m.isInt() {
							// constant mask 2^k-1
							mp := new(big.Int).Add(m.n, big.NewInt(1))
							if m.n.Sign() >= 0 && new(big.Int).And(mp, m.n).Sign() == 0 {
								emit(c.Eq(t, c.Mod(v, c.BigInt(mp))))
							}
							continue
						}
						pw := c.App("ispow2", SBool, c.Add(m, one))
						emit(c.Imp(c.And(pw, c.Ge(v, zero), c.Le(v, m)), c.Eq(t, v)))
						emit(c.Imp(c.And(pw, c.Ge(m, zero), c.Eq(v, c.Add(m, one))), c.Eq(t, zero)))
					}
				case "bor":
					x, y := t.args[0], t.args[1]
					emit(c.Imp(c.And(c.Ge(x, zero), c.Ge(y, zero)), c.And(c.Ge(t, x), c.Ge(t, y), c.Le(t, c.Add(x, y)))))
				case "bxor":
					x, y := t.args[0], t.args[1]
					emit(c.Imp(c.And(c.Ge(x, zero), c.Ge(y, zero)), c.And(c.Ge(t, zero), c.Le(t, c.Add(x, y)))))
				case "pow2":
					emit(c.Imp(c.Ge(t.args[0], zero), c.And(c.Ge(t, one), c.App("ispow2", SBool, t))))
				case "strlen":
					emit(c.Ge(t, zero))
					emit(c.Eq(c.Eq(t, zero), c.Eq(t.args[0], c.Str(""))))
					if s, ok := c.strVal[t.args[0]]; ok {
						emit(c.Eq(t, c.Int(int64(len(s)))))
					}
				case "pair":
					emit(c.Eq(c.App("fst", SInt, t), t.args[0]))
					emit(c.Eq(c.App("snd", SInt, t), t.args[1]))
				default:
					if f := c.rules[t.name]; f != nil {
						emit(f(t))
					}
					for _, r := range c.posRules[t.name] {
						if apps[r.sel] {
							emit(r.f(t))
						}
					}
					// injective constructors: name starts with "inj."
					if strings.HasPrefix(t.name, "inj.") {
						for i, a := range t.args {
							// not through Eq and App, which know it
							p := c.mk("app", a.sort, fmt.Sprintf("prj%d.%s", i, t.name), nil, nil, t)
							emit(c.mk("eq", SBool, "", nil, nil, p, a))
						}
					}
				}
			case "div", "mod":
				a, b := t.args[0], t.args[1]
				if b.isInt() {
					break
				}
				q := c.Div(a, b)
				r := c.Mod(a, b)
				pos := c.Gt(b, zero)
				emit(c.Imp(pos, c.And(c.Ge(r, zero), c.Lt(r, b), c.Eq(a, c.Add(c.Mul(b, q), r)))))
				emit(c.Imp(c.And(pos, c.Ge(a, zero)), c.And(c.Ge(q, zero), c.Le(q, a))))
				emit(c.Imp(c.And(pos, c.Ge(a, zero), c.Lt(a, b)), c.And(c.Eq(q, zero), c.Eq(r, a))))
				emit(c.Imp(c.And(pos, c.Ge(a, b)), c.Ge(q, one)))
			case "mul":
				a, b := t.args[0], t.args[1]
				emit(c.Imp(c.And(c.Ge(a, zero), c.Ge(b, zero)), c.Ge(t, zero)))
				emit(c.Imp(c.And(c.Ge(a, one), c.Ge(b, one)), c.And(c.Ge(t, a), c.Ge(t, b))))
				emit(c.Imp(c.Or(c.Eq(a, zero), c.Eq(b, zero)), c.Eq(t, zero)))
				emit(c.Imp(c.Eq(a, one), c.Eq(t, b)))
				emit(c.Imp(c.Eq(b, one), c.Eq(t, a)))
			case "sum":
				lo, hi, body := t.args[0], t.args[1], t.args[2]
				bv := c.BV(t.name)
				// over all of a permuted range
				if len(c.perms) > 0 && lo.isInt() && lo.n.Sign() == 0 {
					if p := c.permOf(body, bv); p != nil && c.perms[p.name] != hi {
						n := c.perms[p.name]
						emit(c.Imp(c.Eq(hi, n), c.Eq(t, c.Sum(bv, lo, n, body))))
					}
				}
				emit(c.Imp(c.Le(hi, lo), c.Eq(t, zero)))
				if d := c.Sub(hi, lo); d.isInt() && d.n.Cmp(big.NewInt(4)) <= 0 {
					var ps []*Term
					for i := int64(0); i < d.n.Int64(); i++ {
						ps = append(ps, c.Subst(body, bv, c.Add(lo, c.Int(i))))
					}
					emit(c.Eq(t, c.Add(ps...)))
				}
				if c.witness {
					// a sum that is not zero has a summand that is not
					w := c.Var(fmt.Sprintf("w!%d", t.id), SInt)
					emit(c.Or(c.Eq(t, zero), c.And(c.Le(lo, w), c.Lt(w, hi), c.Not(c.Eq(c.Subst(body, bv, w), zero)))))
				}
				// over the elements a filter chose: over all it chose from
				for _, f := range c.selSums {
					if r := f(t); r != nil {
						emit(c.Eq(t, r))
					}
				}
				bb := c.bnd(body)
				if bb.lo != nil && bb.lo.Sign() >= 0 {
					emit(c.Ge(t, zero))
				}
				if bb.hi != nil && bb.hi.Cmp(big.NewInt(1)) == 0 && bb.lo != nil {
					emit(c.Imp(c.Le(lo, hi), c.Le(t, c.Sub(hi, lo))))
				}
			}
		}
		// pairwise lemmas
		key := func(k string, a, b *Term) bool {
			s := fmt.Sprintf("%s:%d:%d", k, a.id, b.id)
			if doneKey[s] {
				return false
			}
			doneKey[s] = true
			return true
		}
		if c.witness {
			// sums that differ have a summand that differs
			var all []*Term
			for _, ss := range sums {
				all = append(all, ss...)
			}
			sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
			if len(all) > 16 {
				all = all[:16]
			}
			at := func(t, w *Term) *Term { return c.Subst(t.args[2], c.BV(t.name), w) }
			rng := func(w *Term, ts ...*Term) *Term {
				var ks []*Term
				for _, t := range ts[1:] {
					ks = append(ks, c.Eq(t.args[0], ts[0].args[0]), c.Eq(t.args[1], ts[0].args[1]))
				}
				return c.And(ks...)
			}
			var bits []*Term
			for _, a := range all {
				if bb := c.bnd(a.args[2]); bb.lo != nil && bb.lo.Sign() >= 0 && bb.hi != nil && bb.hi.Cmp(big.NewInt(1)) <= 0 {
					bits = append(bits, a)
				}
			}
			for i, a := range all {
				for _, b := range all[:i] {
					if a.args[2] == b.args[2] || !key("ext", a, b) {
						continue
					}
					w := c.Var(fmt.Sprintf("wx!%d!%d", a.id, b.id), SInt)
					emit(c.Imp(rng(w, a, b), c.Or(c.Eq(a, b), c.And(c.Le(a.args[0], w), c.Lt(w, a.args[1]), c.Ne(at(a, w), at(b, w))))))
				}
			}
			if len(bits) > 7 {
				size := map[*Term]int{}
				var count func(t *Term, seen map[*Term]bool) int
				count = func(t *Term, seen map[*Term]bool) int {
					if seen[t] {
						return 0
					}
					seen[t] = true
					n := 1
					for _, a := range t.args {
						n += count(a, seen)
					}
					return n
				}
				for _, t := range bits {
					size[t] = count(t.args[2], map[*Term]bool{})
				}
				sort.SliceStable(bits, func(i, j int) bool { return size[bits[i]] < size[bits[j]] })
				bits = bits[:7]
			}
			{
				for i, a := range bits {
					for _, b := range bits[:i] {
						for _, d := range bits {
							if d == a || d == b || !key(fmt.Sprint("ext3", d.id), a, b) {
								continue
							}
							w := c.Var(fmt.Sprintf("wx!%d!%d!%d", a.id, b.id, d.id), SInt)
							emit(c.Imp(rng(w, a, b, d), c.Or(c.Eq(c.Add(a, b), d), c.And(c.Le(a.args[0], w), c.Lt(w, a.args[1]), c.Ne(c.Add(at(a, w), at(b, w)), at(d, w))))))
						}
					}
				}
			}
		}
		for body, ss := range sums {
			sort.Slice(ss, func(i, j int) bool { return ss[i].id < ss[j].id })
			if len(ss) > 14 {
				ss = ss[:14]
			}
			bb := c.bnd(body)
			nonneg := bb.lo != nil && bb.lo.Sign() >= 0
			for _, a := range ss {
				bv := c.BV(a.name)
				// element lemma
				if nonneg {
					used := map[*Term]bool{}
					var arrs func(u *Term)
					var is []*Term
					vis := map[*Term]bool{}
					arrs = func(u *Term) {
						if vis[u] {
							return
						}
						vis[u] = true
						if u.op == "select" && !u.args[0].hasB && u.args[1].hasB {
							off := c.Sub(u.args[1], bv)
							if !off.hasB {
								for _, i := range idxTerms[u.args[0]] {
									x := c.Sub(i, off)
									if !used[x] && len(is) < 6 {
										used[x] = true
										is = append(is, x)
									}
								}
							}
						}
						for _, x := range u.args {
							arrs(x)
						}
					}
					arrs(body)
					for _, x := range is {
						if key("el", a, x) {
							emit(c.Imp(c.And(c.Le(a.args[0], x), c.Lt(x, a.args[1])), c.Ge(a, c.Subst(body, bv, x))))
						}
					}
				}
				for _, b := range ss {
					if a == b || !key("pr", a, b) {
						continue
					}
					alo, ahi, blo, bhi := a.args[0], a.args[1], b.args[0], b.args[1]
					// a = b plus the element at bhi
					emit(c.Imp(c.And(c.Eq(alo, blo), c.Eq(ahi, c.Add(bhi, one)), c.Le(blo, bhi)),
						c.Eq(a, c.Add(b, c.Subst(body, bv, bhi)))))
					// a = element at alo plus b
					emit(c.Imp(c.And(c.Eq(ahi, bhi), c.Eq(c.Add(alo, one), blo), c.Lt(alo, ahi)),
						c.Eq(a, c.Add(b, c.Subst(body, bv, alo)))))
					if nonneg {
						emit(c.Imp(c.And(c.Le(alo, blo), c.Le(bhi, ahi)), c.Ge(a, b)))
					}
				}
			}
			if len(ss) >= 3 && len(ss) <= 7 {
				for _, a := range ss {
					for _, b := range ss {
						for _, d := range ss {
							if a == b || b == d || a == d || !key(fmt.Sprint("tr", d.id), a, b) {
								continue
							}
							emit(c.Imp(c.And(c.Eq(a.args[0], d.args[0]), c.Eq(a.args[1], b.args[0]), c.Eq(b.args[1], d.args[1]),
								c.Le(a.args[0], a.args[1]), c.Le(b.args[0], b.args[1])), c.Eq(d, c.Add(a, b))))
						}
					}
				}
			}
		}
		if len(muls) > 10 {
			muls = muls[:10]
		}
		for i, a := range muls {
			for _, b := range muls[i+1:] {
				if !key("mm", a, b) {
					continue
				}
				for x := 0; x < 2; x++ {
					for y := 0; y < 2; y++ {
						if a.args[x] == b.args[y] {
							d, p, q := a.args[x], a.args[1-x], b.args[1-y]
							emit(c.Imp(c.Ge(d, zero), c.And(c.Imp(c.Le(p, q), c.Le(a, b)), c.Imp(c.Le(q, p), c.Le(b, a)))))
							// the strict step: p < q gives a + d <= b
							emit(c.Imp(c.Ge(d, zero), c.And(c.Imp(c.Lt(p, q), c.Le(c.Add(a, d), b)), c.Imp(c.Lt(q, p), c.Le(c.Add(b, d), a)))))
						}
					}
				}
			}
		}
		// instances of quantified facts at the index terms that occur
		for _, q := range qs {
			q.instantiate(c, order, emit, &qs)
		}
		if len(axs) == n0 {
			break
		}
	}
	return axs
}

// A quantFact is a universally quantified assumption with the places where its variable is an
// array index or a function argument (its triggers).
type quantFact struct {
	f    *Term
	bv   *Term
	trig map[string]bool
	used map[*Term]bool
}

func newQuantFact(c *Ctx, f *Term) *quantFact {
	q := &quantFact{f: f, bv: c.BV(f.name), trig: map[string]bool{}, used: map[*Term]bool{}}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if k := trigKey(t, q.bv); k != "" {
			q.trig[k] = true
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(f.args[0])
	return q
}

// trigKey names the context of the index i in t, when the rest of t is free of bound variables.
func trigKey(t, i *Term) string {
	switch {
	case t.op == "select" && t.args[1] == i && !t.args[0].hasB:
		return fmt.Sprintf("s%d", t.args[0].id)
	case t.op == "app" && len(t.args) > 0 && t.args[len(t.args)-1] == i:
		k := "a" + t.name
		for _, a := range t.args[:len(t.args)-1] {
			if a.hasB {
				return ""
			}
			k += fmt.Sprintf(",%d", a.id)
		}
		return k
	}
	return ""
}

func (q *quantFact) instantiate(c *Ctx, order []*Term, emit func(*Term), qs *[]*quantFact) {
	if len(q.trig) == 0 {
		return
	}
	for _, t := range order {
		if t.hasB || len(t.args) == 0 || t.op != "select" && t.op != "app" {
			continue
		}
		i := t.args[len(t.args)-1]
		if i.sort != SInt || q.used[i] || len(q.used) >= 14 || !q.trig[trigKey(t, i)] {
			continue
		}
		q.used[i] = true
		g := c.Subst(q.f.args[0], q.bv, i)
		for _, g := range conjuncts(g) {
			if g.op == "forall" {
				*qs = append(*qs, newQuantFact(c, g))
			} else if !hasForall(c, g) {
				emit(g)
			}
		}
	}
}

func (p *printer) declare(name, sig string) {
	if !p.decls[name] {
		p.decls[name] = true
		p.decl.WriteString(sig)
		p.decl.WriteByte('\n')
	}
}

func numeral(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// expr prints t, naming shared bound-variable-free nodes.
func (p *printer) expr(t *Term) string {
	if s, ok := p.seen[t]; ok {
		return s
	}
	s := p.expr1(t)
	if !t.hasB && len(s) > 24 && t.op != "forall" {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, s)
		s = n
	}
	p.seen[t] = s
	return s
}
func (p *printer) list(op string, ts []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range ts {
		b.WriteByte(' ')
		b.WriteString(p.expr(a))
	}
	b.WriteByte(')')
	return b.String()
}
func (p *printer) expr1(t *Term) string {
	switch t.op {
	case "int":
		return numeral(t.n)
	case "real":
		return t.name
	case "true", "false":
		return t.op
	case "var":
		p.declare(t.name, fmt.Sprintf("(declare-const %s %s)", t.name, t.sort))
		p.vars[t.name] = t.sort
		return t.name
	case "bv":
		return "b_" + sanitize(t.name)
	case "lin":
		var parts []string
		for i, a := range t.args {
			e := p.expr(a)
			if t.coefs[i].Cmp(big.NewInt(1)) != 0 {
				e = fmt.Sprintf("(* %s %s)", numeral(t.coefs[i]), e)
			}
			parts = append(parts, e)
		}
		if t.n.Sign() != 0 {
			parts = append(parts, numeral(t.n))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "mul":
		p.declare(nmul, "(declare-fun nmul (Int Int) Int)")
		return p.list(nmul, t.args)
	case "div", "mod":
		if t.args[1].isInt() && t.args[1].n.Sign() > 0 {
			return p.list(t.op, t.args)
		}
		p.declare("n"+t.op, "(declare-fun n"+t.op+" (Int Int) Int)")
		return p.list("n"+t.op, t.args)
	case "wrap":
		if t.hasB {
			// under a binder: exact definition
			lo, _, m := wrapRange(t.name)
			e := p.expr(t.args[0])
			return fmt.Sprintf("(+ (mod (- %s %s) %s) %s)", e, numeral(lo), m.String(), numeral(lo))
		}
		n := fmt.Sprintf("w!%d", t.id)
		p.declare(n, fmt.Sprintf("(declare-const %s Int)", n))
		return n
	case "sum":
		return p.sum(t)
	case "eq":
		return p.list("=", t.args)
	case "le":
		return p.list("<=", t.args)
	case "not", "and", "or", "ite", "select", "store":
		return p.list(t.op, t.args)
	case "lam":
		n := fmt.Sprintf("lam!%d", t.id)
		if t.hasB {
			panic(unsupportedErr{"an array comprehension under a quantifier"})
		}
		p.declare(n, fmt.Sprintf("(declare-const %s %s)", n, t.sort))
		if !p.lams[t] {
			p.lams[t] = true
			p.pending = append(p.pending, t)
		}
		return n
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.expr(t.args[0]))
	case "forall":
		return fmt.Sprintf("(forall ((b_%s Int)) %s)", sanitize(t.name), p.expr(t.args[0]))
	case "app":
		n := "f_" + sanitize(t.name)
		if len(t.args) == 0 {
			p.declare(n, fmt.Sprintf("(declare-const %s %s)", n, t.sort))
			return n
		}
		var ss []string
		for _, a := range t.args {
			ss = append(ss, string(a.sort))
		}
		sig := strings.Join(ss, " ") + ">" + string(t.sort)
		if old, ok := p.sigs[n]; ok && old != sig {
			n += "." + strings.NewReplacer(" ", "", "(", "", ")", "", ">", "_").Replace(sig)
		} else {
			p.sigs[n] = sig
		}
		p.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), t.sort))
		return p.list(n, t.args)
	}
	panic("print: " + t.op)
}

// sum prints a sum as an application of a function symbol for its skeleton to its bounds and to
// the maximal bound-variable-free parts of its body, so that congruence applies.
func (p *printer) sum(t *Term) string {
	var params []*Term
	nested := false
	shapes := map[*Term]string{}
	var shape func(u *Term) string
	shape = func(u *Term) string {
		if r, ok := shapes[u]; ok {
			return r
		}
		r := "$"
		if !fbHas(u.fb, t.name) {
			switch u.op {
			case "int", "true", "false":
				r = u.op + u.String()
			}
		} else if u.op == "bv" {
			r = "@"
		} else {
			var b strings.Builder
			b.WriteString(u.op + ":" + u.name + "(")
			var as []string
			for i, a := range u.args {
				q := shape(a)
				if u.coefs != nil {
					q = u.coefs[i].String() + "*" + q
				}
				as = append(as, q)
			}
			if u.op == "eq" || u.op == "and" || u.op == "or" || u.op == "lin" {
				sort.Strings(as)
			}
			b.WriteString(strings.Join(as, " ") + ")")
			r = b.String()
		}
		shapes[u] = r
		return r
	}
	var sk func(u *Term) string
	sk = func(u *Term) string {
		if !fbHas(u.fb, t.name) {
			switch u.op {
			case "int", "true", "false":
				return u.op + u.String()
			}
			for i, q := range params {
				if q == u {
					return fmt.Sprintf("$%d", i)
				}
			}
			params = append(params, u)
			return fmt.Sprintf("$%d", len(params)-1)
		}
		if u.op == "bv" {
			return "@"
		}
		if u.op == "sum" || u.op == "forall" || u.op == "lam" {
			nested = true
			return "?"
		}
		var b strings.Builder
		b.WriteString("(" + u.op + ":" + u.name)
		// commutative operators: in an order that does not depend on the parameters
		ix := make([]int, len(u.args))
		for i := range ix {
			ix[i] = i
		}
		if u.op == "eq" || u.op == "and" || u.op == "or" || u.op == "lin" {
			sh := make([]string, len(u.args))
			for i, a := range u.args {
				sh[i] = shape(a)
				if u.coefs != nil {
					sh[i] += "*" + u.coefs[i].String()
				}
			}
			sort.SliceStable(ix, func(i, j int) bool { return sh[ix[i]] < sh[ix[j]] })
		}
		for _, i := range ix {
			b.WriteByte(' ')
			if u.coefs != nil {
				b.WriteString(u.coefs[i].String() + "*")
			}
			b.WriteString(sk(u.args[i]))
		}
		if u.n != nil {
			b.WriteString("+" + u.n.String())
		}
		b.WriteByte(')')
		return b.String()
	}
	k := sk(t.args[2])
	if nested {
		// nothing is said about it but that it is a function of what is bound outside
		if len(t.fb) > 0 {
			panic(unsupportedErr{"a sum nested in a sum"})
		}
		k = fmt.Sprintf("nested#%d", t.id)
		params = nil
	}
	sorts := "Int Int"
	for _, q := range params {
		sorts += " " + string(q.sort)
	}
	k += "|" + sorts
	id, ok := p.nskel[k]
	if !ok {
		id = len(p.nskel)
		p.nskel[k] = id
	}
	n := fmt.Sprintf("sum!%d", id)
	p.declare(n, fmt.Sprintf("(declare-fun %s (%s) Int)", n, sorts))
	return p.list(n, append([]*Term{t.args[0], t.args[1]}, params...))
}

func (q *query) render() string {
	c := q.c
	ts := append([]*Term(nil), q.assume...)
	if q.goal != nil {
		ts = append(ts, c.Not(q.goal))
	}
	ts = append(ts, axiomsFor(c, append(append([]*Term(nil), ts...), q.wanted...), q.inst)...)
	p := &printer{c: c, seen: map[*Term]string{}, decls: map[string]bool{}, nskel: map[string]int{}, vars: map[string]Sort{}, sigs: map[string]string{}, lams: map[*Term]bool{}}
	var as []string
	for _, t := range ts {
		if t.isTrue() {
			continue
		}
		e := p.expr(t)
		as = append(as, e)
		// keep definitions in order: assertion follows the defs emitted so far
		fmt.Fprintf(&p.b, "(assert %s)\n", e)
	}
	for len(p.pending) > 0 {
		t := p.pending[0]
		p.pending = p.pending[1:]
		// definition of a comprehension array
		nb := c.TempBV()
		body := c.Subst(t.args[0], c.BV(t.name), nb)
		b := p.expr(body)
		fmt.Fprintf(&p.b, "(assert (forall ((b_%s Int)) (! (= (select lam!%d b_%s) %s) :pattern ((select lam!%d b_%s)))))\n",
			sanitize(nb.name), t.id, sanitize(nb.name), b, t.id, sanitize(nb.name))
	}
	var want []string
	for _, w := range q.wanted {
		want = append(want, p.expr(w))
	}
	out := p.decl.String() + p.b.String() + "(check-sat)\n"
	if len(want) > 0 {
		out += ";;want " + strings.Join(want, " ") + "\n"
	}
	return out
}

// ---------- processes ----------

type smtProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() (*smtProc, error) {
	cmd := exec.Command(z3Path, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &smtProc{cmd, in, bufio.NewReader(out)}, nil
}

var z3Path = "z3-new"

type solverPool struct {
	ch        chan *smtProc
	cache     sync.Map // text -> result
	nq        atomic.Int64
	nhit      atomic.Int64
	ns        atomic.Int64
	byBackend sync.Map
}

func newPool(n int) *solverPool {
	p := &solverPool{ch: make(chan *smtProc, n)}
	for i := 0; i < n; i++ {
		p.ch <- nil
	}
	return p
}

type satResult struct {
	status  string // sat, unsat, unknown
	backend string
	model   string
}

func (p *solverPool) check(text string, timeoutMs int) satResult {
	if r, ok := p.cache.Load(text); ok {
		p.nhit.Add(1)
		return r.(satResult)
	}
	p.nq.Add(1)
	t0 := time.Now()
	r := p.run(text, timeoutMs)
	p.ns.Add(int64(time.Since(t0)))
	if r.status != "unknown" {
		p.cache.Store(text, r)
	}
	return r
}

func (p *solverPool) run(text string, timeoutMs int) satResult {
	pr := <-p.ch
	defer func() { p.ch <- pr }()
	if pr == nil {
		var err error
		pr, err = startZ3()
		if err != nil {
			return satResult{status: "unknown", backend: "none"}
		}
	}
	want := ""
	if i := strings.Index(text, ";;want "); i >= 0 {
		want = strings.TrimSpace(text[i+7:])
		text = text[:i]
	}
	kill := func() {
		pr.cmd.Process.Kill()
		pr.cmd.Wait()
		pr = nil
	}
	fmt.Fprintf(pr.in, "(reset)\n(set-option :timeout %d)\n%s(echo \"<<end>>\")\n", timeoutMs, text)
	type rd struct {
		s   string
		err error
	}
	read := func(limit time.Duration) (string, bool) {
		ch := make(chan rd, 1)
		rp := pr
		go func() {
			var b strings.Builder
			for {
				l, err := rp.out.ReadString('\n')
				if strings.Contains(l, "<<end>>") {
					ch <- rd{b.String(), nil}
					return
				}
				b.WriteString(l)
				if err != nil {
					ch <- rd{b.String(), err}
					return
				}
			}
		}()
		select {
		case r := <-ch:
			return r.s, r.err == nil
		case <-time.After(limit):
			return "", false
		}
	}
	s, ok := read(time.Duration(timeoutMs)*time.Millisecond + 5*time.Second)
	if !ok {
		kill()
		return satResult{status: "unknown", backend: "z3-new"}
	}
	st := strings.TrimSpace(s)
	if strings.Contains(st, "error") {
		return satResult{status: "unknown", backend: "z3-new", model: st}
	}
	switch {
	case strings.HasPrefix(st, "unsat"):
		return satResult{status: "unsat", backend: "z3-new"}
	case strings.HasPrefix(st, "sat"):
		m := ""
		if want != "" {
			fmt.Fprintf(pr.in, "(get-value (%s))\n(echo \"<<end>>\")\n", want)
			m, ok = read(5 * time.Second)
			if !ok {
				kill()
			}
		}
		return satResult{status: "sat", backend: "z3-new", model: m}
	}
	return satResult{status: "unknown", backend: "z3-new", model: st}
}

// second asks another solver, for queries the first could not decide.
func (p *solverPool) second(text string, timeoutMs int) satResult {
	if i := strings.Index(text, ";;want "); i >= 0 {
		text = text[:i]
	}
	for _, alt := range [][]string{
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMs), "-q"},
		{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMs)},
	} {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeoutMs+3000)*time.Millisecond)
		cmd := exec.CommandContext(ctx, alt[0], alt[1:]...)
		cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + text)
		var out bytes.Buffer
		cmd.Stdout = &out
		_ = cmd.Run()
		cancel()
		st := strings.TrimSpace(out.String())
		if strings.HasPrefix(st, "unsat") {
			return satResult{status: "unsat", backend: alt[0]}
		}
		if strings.HasPrefix(st, "sat") {
			return satResult{status: "sat", backend: alt[0]}
		}
	}
	return satResult{status: "unknown"}
}

func (p *solverPool) close() {
	for i := 0; i < cap(p.ch); i++ {
		if pr := <-p.ch; pr != nil {
			pr.in.Close()
			pr.cmd.Process.Kill()
			pr.cmd.Wait()
		}
	}
}
