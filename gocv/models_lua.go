package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The script given to the Redis client is read from the argument of Eval and run symbolically, as
// Redis runs it: arguments are strings, numbers are doubles (exact up to 2^53 only), a failing
// redis.call ends the script with an error but keeps what it did. What it did is reported to the
// contract by the events lua.start and lua.end; a0 of lua.end says that the script failed, a1 that it
// failed because of an argument that Redis refuses whatever is stored.
//
// Redis: $r.has key -> exists, $r.ttl key -> lifetime in seconds or 0, $r.val key -> the field
// "scalar" of the hash; old$r.* are the same when the script starts.

type luaTok struct {
	kind byte // i name, n number, s string, o operator, e end
	s    string
}

func luaLex(q string) ([]luaTok, bool) {
	var out []luaTok
	for i := 0; i < len(q); {
		ch := rune(q[i])
		switch {
		case unicode.IsSpace(ch):
			i++
		case strings.HasPrefix(q[i:], "--[["):
			j := strings.Index(q[i:], "]]")
			if j < 0 {
				return nil, false
			}
			i += j + 2
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case unicode.IsLetter(ch) || ch == '_':
			j := i
			for j < len(q) && (unicode.IsLetter(rune(q[j])) || unicode.IsDigit(rune(q[j])) || q[j] == '_') {
				j++
			}
			out = append(out, luaTok{'i', q[i:j]})
			i = j
		case unicode.IsDigit(ch):
			j := i
			for j < len(q) && unicode.IsDigit(rune(q[j])) {
				j++
			}
			out = append(out, luaTok{'n', q[i:j]})
			i = j
		case ch == '\'' || ch == '"':
			j := i + 1
			for j < len(q) && rune(q[j]) != ch {
				if q[j] == '\\' {
					return nil, false
				}
				j++
			}
			if j >= len(q) {
				return nil, false
			}
			out = append(out, luaTok{'s', q[i+1 : j]})
			i = j + 1
		default:
			for _, o := range []string{"==", "~=", "<=", ">=", ".."} {
				if strings.HasPrefix(q[i:], o) {
					out = append(out, luaTok{'o', o})
					i += 2
					goto next
				}
			}
			if !strings.ContainsRune("()[]{}=<>+-*/,;.#", ch) {
				return nil, false
			}
			out = append(out, luaTok{'o', string(ch)})
			i++
		}
	next:
	}
	return append(out, luaTok{'e', ""}), true
}

// luaNode: an expression or a statement.
type luaNode struct {
	op   string
	s    string
	kids []*luaNode
	els  []*luaNode
	body []*luaNode
}

type luaParser struct {
	t   []luaTok
	i   int
	bad bool
}

func (p *luaParser) is(s string) bool { return p.t[p.i].kind != 's' && p.t[p.i].s == s }
func (p *luaParser) take(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *luaParser) want(s string) {
	if !p.take(s) {
		p.bad = true
	}
}
func (p *luaParser) block() []*luaNode {
	var out []*luaNode
	for !p.bad && p.t[p.i].kind != 'e' && !p.is("end") && !p.is("else") && !p.is("elseif") {
		if p.take(";") {
			continue
		}
		out = append(out, p.stat())
	}
	return out
}
func (p *luaParser) stat() *luaNode {
	switch {
	case p.take("local"):
		n := &luaNode{op: "set", s: p.t[p.i].s}
		p.i++
		if p.take("=") {
			n.kids = append(n.kids, p.expr(0))
		} else {
			n.kids = append(n.kids, &luaNode{op: "nil"})
		}
		if p.is(",") {
			p.bad = true
		}
		return n
	case p.take("return"):
		n := &luaNode{op: "return"}
		if p.t[p.i].kind != 'e' && !p.is("end") && !p.is("else") && !p.is("elseif") && !p.is(";") {
			n.kids = append(n.kids, p.expr(0))
		}
		return n
	case p.take("if"):
		n := p.ifRest()
		return n
	case p.take("do"):
		n := &luaNode{op: "do", body: p.block()}
		p.want("end")
		return n
	}
	e := p.expr(0)
	if p.take("=") {
		if e.op != "name" {
			p.bad = true
		}
		return &luaNode{op: "set", s: e.s, kids: []*luaNode{p.expr(0)}}
	}
	if e.op != "call" {
		p.bad = true
	}
	return &luaNode{op: "do1", kids: []*luaNode{e}}
}
func (p *luaParser) ifRest() *luaNode {
	n := &luaNode{op: "if", kids: []*luaNode{p.expr(0)}}
	p.want("then")
	n.body = p.block()
	switch {
	case p.take("elseif"):
		n.els = []*luaNode{p.ifRest()}
		return n
	case p.take("else"):
		n.els = p.block()
	}
	p.want("end")
	return n
}

var luaPrec = map[string]int{"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "..": 4, "+": 5, "-": 5, "*": 6}

func (p *luaParser) expr(min int) *luaNode {
	if p.bad {
		return &luaNode{op: "nil"}
	}
	var a *luaNode
	switch {
	case p.take("not"):
		a = &luaNode{op: "not", kids: []*luaNode{p.expr(7)}}
	case p.take("-"):
		a = &luaNode{op: "neg", kids: []*luaNode{p.expr(7)}}
	default:
		a = p.prim()
	}
	for !p.bad && p.t[p.i].kind != 's' {
		op := p.t[p.i].s
		pr, ok := luaPrec[op]
		if !ok || pr <= min {
			break
		}
		p.i++
		r := pr
		if op == ".." {
			r = pr - 1
		}
		a = &luaNode{op: op, kids: []*luaNode{a, p.expr(r)}}
	}
	return a
}
func (p *luaParser) prim() *luaNode {
	t := p.t[p.i]
	p.i++
	var a *luaNode
	switch {
	case t.kind == 'n':
		return &luaNode{op: "num", s: t.s}
	case t.kind == 's':
		a = &luaNode{op: "str", s: t.s}
		return a
	case t.kind == 'i' && (t.s == "nil" || t.s == "true" || t.s == "false"):
		return &luaNode{op: t.s}
	case t.kind == 'i':
		a = &luaNode{op: "name", s: t.s}
	case t.s == "(":
		a = p.expr(0)
		p.want(")")
	default:
		p.bad = true
		p.i--
		return &luaNode{op: "nil"}
	}
	for !p.bad {
		switch {
		case p.take("."):
			a = &luaNode{op: "name", s: a.s + "." + p.t[p.i].s}
			p.i++
		case p.take("["):
			a = &luaNode{op: "index", kids: []*luaNode{a, p.expr(0)}}
			p.want("]")
		case p.take("("):
			a = &luaNode{op: "call", s: a.s}
			for !p.is(")") && !p.bad {
				a.kids = append(a.kids, p.expr(0))
				if !p.take(",") {
					break
				}
			}
			p.want(")")
		default:
			return a
		}
	}
	return a
}

// luaVal: kind nil, bool, num (an integer; exact says the double holds it), dec (the decimal text
// of an integer), neg ('-' before the decimal text of an integer), first (its first character),
// rest (its text from the second character), str.
type luaVal struct {
	kind  string
	t     *Term
	exact *Term
}

type luaRun struct {
	x    *Exec
	keys []*Term
	argv []luaVal
	n    int
}

type luaEnv map[string]luaVal

func (e luaEnv) with(n string, v luaVal) luaEnv {
	out := luaEnv{n: v}
	for k, w := range e {
		if k != n {
			out[k] = w
		}
	}
	return out
}

type luaK func(*State, luaVal)

func (r *luaRun) bad(f string, a ...interface{}) { r.x.unsupported("Lua: "+f, a...) }

func (r *luaRun) num(t *Term) luaVal {
	c := r.x.c
	lim := c.BigInt(new(big.Int).Lsh(big.NewInt(1), 53))
	return luaVal{"num", t, c.And(c.Le(c.Neg(lim), t), c.Le(t, lim))}
}

// run executes a block; done receives the returned value, or next goes on after the block.
func (r *luaRun) run(st *State, env luaEnv, b []*luaNode, done luaK, next func(*State, luaEnv)) {
	if len(b) == 0 {
		next(st, env)
		return
	}
	r.n++
	if r.n > 400 {
		r.bad("the script is too long")
	}
	n, rest := b[0], b[1:]
	go_on := func(s *State, e luaEnv) { r.run(s, e, rest, done, next) }
	switch n.op {
	case "set":
		r.eval(st, env, n.kids[0], done, func(s *State, v luaVal) {
			r.run(s, env.with(n.s, v), rest, done, next)
		})
	case "do1":
		r.eval(st, env, n.kids[0], done, func(s *State, v luaVal) { go_on(s, env) })
	case "return":
		if len(n.kids) == 0 {
			done(st, luaVal{kind: "nil"})
			return
		}
		r.eval(st, env, n.kids[0], done, done)
	case "do":
		r.run(st, env, n.body, done, go_on)
	case "if":
		r.eval(st, env, n.kids[0], done, func(s *State, v luaVal) {
			r.x.fork(s, r.truth(v), func(s2 *State) { r.run(s2, env, n.body, done, go_on) }, func(s2 *State) { r.run(s2, env, n.els, done, go_on) })
		})
	default:
		r.bad("statement %s", n.op)
	}
}

func (r *luaRun) truth(v luaVal) *Term {
	switch v.kind {
	case "nil":
		return r.x.c.Bool(false)
	case "bool":
		return v.t
	}
	return r.x.c.Bool(true)
}

// eval: fail ends the script (a failed redis.call).
func (r *luaRun) eval(st *State, env luaEnv, n *luaNode, done luaK, k luaK) {
	x, c := r.x, r.x.c
	switch n.op {
	case "nil":
		k(st, luaVal{kind: "nil"})
	case "true", "false":
		k(st, luaVal{kind: "bool", t: c.Bool(n.op == "true")})
	case "num":
		b, _ := new(big.Int).SetString(n.s, 10)
		k(st, r.num(c.BigInt(b)))
	case "str":
		k(st, luaVal{kind: "str", t: c.Str(n.s)})
	case "name":
		v, ok := env[n.s]
		if !ok {
			v = luaVal{kind: "nil"}
			if strings.Contains(n.s, ".") {
				r.bad("name %s", n.s)
			}
		}
		k(st, v)
	case "index":
		if n.kids[0].op != "name" || n.kids[1].op != "num" {
			r.bad("index")
		}
		i := int(n.kids[1].s[0]-'0') - 1
		if len(n.kids[1].s) > 1 || i < 0 {
			r.bad("index %s", n.kids[1].s)
		}
		v := luaVal{kind: "nil"}
		switch n.kids[0].s {
		case "KEYS":
			if i < len(r.keys) {
				v = luaVal{kind: "str", t: r.keys[i]}
			}
		case "ARGV":
			if i < len(r.argv) {
				v = r.argv[i]
			}
		default:
			r.bad("index of %s", n.kids[0].s)
		}
		k(st, v)
	case "not":
		r.eval(st, env, n.kids[0], done, func(s *State, v luaVal) { k(s, luaVal{kind: "bool", t: c.Not(r.truth(v))}) })
	case "neg":
		r.eval(st, env, n.kids[0], done, func(s *State, v luaVal) {
			if v.kind == "dec" { // arithmetic turns text into a number
				v = r.num(v.t)
			}
			if v.kind != "num" {
				r.bad("minus of %s", v.kind)
			}
			k(s, luaVal{"num", c.Neg(v.t), v.exact})
		})
	case "and", "or":
		r.eval(st, env, n.kids[0], done, func(s *State, a luaVal) {
			yes := func(s2 *State) { r.eval(s2, env, n.kids[1], done, k) }
			no := func(s2 *State) { k(s2, a) }
			if n.op == "or" {
				yes, no = no, yes
			}
			x.fork(s, r.truth(a), yes, no)
		})
	case "==", "~=", "<", ">", "<=", ">=", "..", "+", "-", "*":
		r.eval(st, env, n.kids[0], done, func(s *State, a luaVal) {
			r.eval(s, env, n.kids[1], done, func(s2 *State, b luaVal) { k(s2, r.binary(n.op, a, b)) })
		})
	case "call":
		var args []luaVal
		var rec func(s *State, i int)
		rec = func(s *State, i int) {
			if i == len(n.kids) {
				r.call(s, n.s, append([]luaVal(nil), args...), done, k)
				return
			}
			r.eval(s, env, n.kids[i], done, func(s2 *State, v luaVal) {
				args = append(args[:i:i], v)
				rec(s2, i+1)
			})
		}
		rec(st, 0)
	default:
		r.bad("expression %s", n.op)
	}
}

func (r *luaRun) binary(op string, a, b luaVal) luaVal {
	x, c := r.x, r.x.c
	if op == "==" || op == "~=" {
		t := r.equal(a, b)
		if op == "~=" {
			t = c.Not(t)
		}
		return luaVal{kind: "bool", t: t}
	}
	if op == ".." {
		if s, ok := c.strVal[a.t]; ok && a.kind == "str" && s == "-" && (b.kind == "dec") {
			return luaVal{kind: "neg", t: b.t}
		}
		if a.kind == "num" {
			a = r.text(a)
		}
		if b.kind == "num" {
			b = r.text(b)
		}
		if a.kind == "str" && b.kind == "str" {
			return luaVal{kind: "str", t: x.cat(a.t, b.t)}
		}
		r.bad("concatenation of %s and %s", a.kind, b.kind)
	}
	if op == "+" || op == "-" || op == "*" {
		if a.kind == "dec" {
			a = r.num(a.t)
		}
		if b.kind == "dec" {
			b = r.num(b.t)
		}
	}
	if a.kind != "num" || b.kind != "num" {
		r.bad("%s of %s and %s", op, a.kind, b.kind)
	}
	var t *Term
	switch op {
	case "+":
		t = c.Add(a.t, b.t)
	case "-":
		t = c.Sub(a.t, b.t)
	case "*":
		t = c.Mul(a.t, b.t)
	case "<":
		return luaVal{kind: "bool", t: c.Lt(a.t, b.t)}
	case ">":
		return luaVal{kind: "bool", t: c.Lt(b.t, a.t)}
	case "<=":
		return luaVal{kind: "bool", t: c.Le(a.t, b.t)}
	case ">=":
		return luaVal{kind: "bool", t: c.Ge(a.t, b.t)}
	}
	v := r.num(t)
	v.exact = c.And(v.exact, a.exact, b.exact)
	return v
}

// text of a number as Lua writes it: decimal digits up to 14 of them
func (r *luaRun) text(v luaVal) luaVal {
	c := r.x.c
	lim := c.Int(100000000000000)
	return luaVal{kind: "str", t: c.Ite(c.And(v.exact, c.Lt(c.Neg(lim), v.t), c.Lt(v.t, lim)), r.x.decText(v.t), c.Fresh("lua.text", SInt))}
}

func (r *luaRun) equal(a, b luaVal) *Term {
	c := r.x.c
	if a.kind == "str" && (b.kind == "dec" || b.kind == "first") {
		a, b = b, a
	}
	if b.kind == "str" {
		s, known := c.strVal[b.t]
		switch a.kind {
		case "first":
			if known && s == "-" {
				return c.Lt(a.t, c.Int(0))
			}
		case "dec":
			if known {
				if n, ok := new(big.Int).SetString(s, 10); ok && n.String() == s {
					return c.Eq(a.t, c.BigInt(n))
				}
				return c.Bool(false)
			}
		case "str":
			return c.Eq(a.t, b.t)
		}
		if a.kind == "nil" || a.kind == "num" || a.kind == "bool" {
			return c.Bool(false)
		}
	}
	if a.kind == b.kind {
		switch a.kind {
		case "nil":
			return c.Bool(true)
		case "num", "bool", "dec":
			return c.Eq(a.t, b.t)
		}
	} else if a.kind == "nil" || b.kind == "nil" || a.kind == "bool" || b.kind == "bool" {
		return c.Bool(false)
	} else if a.kind == "num" && b.kind == "dec" || a.kind == "dec" && b.kind == "num" {
		return c.Bool(false)
	}
	r.bad("comparison of %s and %s", a.kind, b.kind)
	return nil
}

func (r *luaRun) call(st *State, f string, a []luaVal, done luaK, k luaK) {
	x, c := r.x, r.x.c
	lit := func(i int) string {
		if i < len(a) && a[i].kind == "str" {
			if s, ok := c.strVal[a[i].t]; ok {
				return s
			}
		}
		return ""
	}
	switch f {
	case "tonumber":
		switch a[0].kind {
		case "dec":
			k(st, r.num(a[0].t))
		case "num", "nil":
			k(st, a[0])
		default:
			r.bad("tonumber of %s", a[0].kind)
		}
	case "tostring":
		if a[0].kind == "dec" || a[0].kind == "str" {
			k(st, a[0])
			return
		}
		k(st, r.text(a[0]))
	case "string.sub":
		// string.sub(s, 1, 1) and string.sub(s, 2)
		one := func(i int, n int64) bool { return len(a) > i && a[i].kind == "num" && a[i].t == c.Int(n) }
		if a[0].kind == "dec" && len(a) == 3 && one(1, 1) && one(2, 1) {
			k(st, luaVal{kind: "first", t: a[0].t})
			return
		}
		if a[0].kind == "dec" && len(a) == 2 && one(1, 2) {
			// of a negative number: the magnitude
			x.fork(st, c.Lt(a[0].t, c.Int(0)), func(s *State) { k(s, luaVal{kind: "dec", t: c.Neg(a[0].t)}) },
				func(s *State) { k(s, luaVal{kind: "str", t: c.Fresh("lua.rest", SInt)}) })
			return
		}
		r.bad("string.sub")
	case "redis.call":
		r.redis(st, strings.ToUpper(lit(0)), a[1:], func(s *State, bad *Term) { done(s, luaVal{kind: "error", t: bad}) }, k)
	default:
		r.bad("function %s", f)
	}
}

// redis: one command. Anything may be stored under the keys before.
func (r *luaRun) redis(st *State, cmd string, a []luaVal, fail func(*State, *Term), k luaK) {
	x, c := r.x, r.x.c
	one, zero := c.Int(1), c.Int(0)
	key := func(i int) []*Term {
		if i >= len(a) || a[i].kind != "str" {
			r.bad("%s without a key", cmd)
		}
		return []*Term{a[i].t}
	}
	x.use(st)
	has := func(s *State, kk []*Term) *Term { return x.rdHeap(s, "$r.has", kk, SBool) }
	num := func(t *Term) luaVal { return r.num(t) }
	refuse := func(s *State) { fail(s, c.Bool(true)) }
	create := func(s *State, kk []*Term) {
		x.wrHeap(s, "$r.has", kk, SBool, c.Bool(true))
		x.wrHeap(s, "$r.ttl", kk, SInt, zero)
	}
	whole := func(i int) (*Term, *Term) { // value and whether it is a valid integer text
		v := a[i]
		lim := new(big.Int).Lsh(big.NewInt(1), 63)
		switch v.kind {
		case "num":
			return v.t, v.exact
		case "dec":
			return v.t, c.And(c.Le(c.BigInt(new(big.Int).Neg(lim)), v.t), c.Lt(v.t, c.BigInt(lim)))
		case "neg":
			return c.Neg(v.t), c.And(c.Lt(zero, v.t), c.Le(v.t, c.BigInt(lim)))
		case "str":
			if s, ok := c.strVal[v.t]; ok {
				if n, ok := new(big.Int).SetString(s, 10); ok && n.String() == s && n.IsInt64() {
					return c.BigInt(n), c.Bool(true)
				}
			}
		}
		return c.Fresh("lua.int", SInt), c.Fresh("lua.isint", SBool)
	}
	switch cmd {
	case "EXISTS", "GET":
		h := has(st, key(0))
		if cmd == "GET" {
			x.fork(st, h, func(s *State) { k(s, luaVal{kind: "str", t: c.Fresh("lua.get", SInt)}) }, func(s *State) { k(s, luaVal{kind: "bool", t: c.Bool(false)}) })
			return
		}
		k(st, num(c.Ite(h, one, zero)))
	case "SETNX":
		kk := key(0)
		x.fork(st, has(st, kk), func(s *State) { k(s, num(zero)) }, func(s *State) {
			create(s, kk)
			k(s, num(one))
		})
	case "SET":
		kk := key(0)
		var ttl *Term
		nx := false
		for i := 2; i < len(a); i++ {
			o, _ := c.strVal[a[i].t]
			switch strings.ToUpper(o) {
			case "NX":
				nx = true
			case "EX":
				if i+1 < len(a) {
					ttl, _ = whole(i + 1)
					i++
				}
			default:
				r.bad("SET option %s", o)
			}
		}
		set := func(s *State) {
			create(s, kk)
			if ttl != nil {
				x.fork(s, c.Gt(ttl, zero), func(s2 *State) {
					x.wrHeap(s2, "$r.ttl", kk, SInt, ttl)
					k(s2, luaVal{kind: "str", t: c.Str("OK")})
				}, refuse)
				return
			}
			k(s, luaVal{kind: "str", t: c.Str("OK")})
		}
		if !nx {
			set(st)
			return
		}
		x.fork(st, has(st, kk), func(s *State) { k(s, luaVal{kind: "bool", t: c.Bool(false)}) }, set)
	case "SETEX":
		kk := key(0)
		ttl, _ := whole(1)
		x.fork(st, c.Gt(ttl, zero), func(s *State) {
			create(s, kk)
			x.wrHeap(s, "$r.ttl", kk, SInt, ttl)
			k(s, luaVal{kind: "str", t: c.Str("OK")})
		}, refuse)
	case "EXPIRE":
		kk := key(0)
		ttl, ok := whole(1)
		x.fork(st, ok, func(s *State) {
			x.fork(s, has(s, kk), func(s2 *State) {
				x.fork(s2, c.Gt(ttl, zero), func(s3 *State) {
					x.wrHeap(s3, "$r.ttl", kk, SInt, ttl)
					k(s3, num(one))
				}, func(s3 *State) { // expires at once
					x.wrHeap(s3, "$r.has", kk, SBool, c.Bool(false))
					k(s3, num(one))
				})
			}, func(s2 *State) { k(s2, num(zero)) })
		}, refuse)
	case "DEL":
		kk := key(0)
		h := has(st, kk)
		x.wrHeap(st, "$r.has", kk, SBool, c.Bool(false))
		x.wrHeap(st, "$r.val", kk, SInt, zero)
		k(st, num(c.Ite(h, one, zero)))
	case "HINCRBY":
		kk := key(0)
		if a[1].kind != "str" || a[1].t != c.Str("scalar") {
			r.bad("HINCRBY of another field")
		}
		d, ok := whole(2)
		old := x.rdHeap(st, "$r.val", kk, SInt)
		lim := new(big.Int).Lsh(big.NewInt(1), 63)
		nv := c.Add(old, d)
		// another type, a field that is not a number, or an overflow
		fits := c.And(ok, c.Fresh("redis.number", SBool), c.Le(c.BigInt(new(big.Int).Neg(lim)), nv), c.Lt(nv, c.BigInt(lim)))
		x.fork(st, fits, func(s *State) {
			x.wrHeap(s, "$r.has", kk, SBool, c.Bool(true))
			x.wrHeap(s, "$r.val", kk, SInt, nv)
			k(s, num(nv))
		}, func(s *State) { fail(s, c.Not(ok)) })
	default:
		r.bad("redis command %q", cmd)
	}
}

// decText is the decimal text of an integer.
func (x *Exec) decText(t *Term) *Term {
	c := x.c
	return c.App("inj.sprintf."+sanitize("%d"), SInt, c.Str("%d"), t)
}

// cat is string concatenation in a normal form.
func (x *Exec) cat(ts ...*Term) *Term {
	c := x.c
	var fl []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "app" && t.name == "strcat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if s, ok := c.strVal[t]; ok {
			if s == "" {
				return
			}
			if n := len(fl); n > 0 {
				if p, ok := c.strVal[fl[n-1]]; ok {
					fl[n-1] = c.Str(p + s)
					return
				}
			}
		}
		fl = append(fl, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(fl) {
	case 0:
		return c.Str("")
	case 1:
		return fl[0]
	}
	return c.App("strcat", SInt, fl...)
}

func init() {
	m0("strings.ReplaceAll", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.c.App("replaced", SInt, a[0].(*Term), a[1].(*Term), a[2].(*Term))})
	})
	ifaceModels["vsa/internal/ratelimiter/persistence.RedisEvaler.Eval"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		script, ok := c.strVal[a[1].(*Term)]
		if !ok {
			x.unsupported("Lua: a script that is not constant")
		}
		r := &luaRun{x: x}
		strs := func(v Val) []*VIface {
			sl := v.(*VSlice)
			if !sl.len.isInt() {
				x.unsupported("Lua: unknown number of arguments")
			}
			var out []*VIface
			for i := int64(0); i < sl.len.n.Int64(); i++ {
				p := &VPtr{cls: "[]" + className(sl.elem), idx: []*Term{sl.arr, c.Add(sl.off, c.Int(i))}, elem: sl.elem}
				switch w := x.load(st, p, token.NoPos).(type) {
				case *VIface:
					out = append(out, w)
				case *Term:
					out = append(out, &VIface{dyn: types.Typ[types.String], val: w})
				}
			}
			return out
		}
		for _, v := range strs(a[2]) {
			r.keys = append(r.keys, v.val.(*Term))
		}
		for _, v := range strs(a[3]) {
			if v.dyn == nil {
				tag, _ := x.ifaceTerms(v)
				if tag.isInt() {
					v = &VIface{dyn: x.tagType[tag.n.Int64()], pay: v.pay}
				}
			}
			b, ok := types.Type(nil), false
			if v.dyn != nil {
				b, ok = v.dyn.Underlying().(*types.Basic)
			}
			if !ok {
				x.unsupported("Lua: argument of unknown type")
			}
			w := v.val
			if w == nil {
				w = x.unpay(v.dyn, v.pay)
			}
			t := w.(*Term)
			switch {
			case b.(*types.Basic).Info()&types.IsInteger != 0:
				r.argv = append(r.argv, luaVal{kind: "dec", t: t})
			case t.op == "app" && t.name == "inj.sprintf."+sanitize("%d"):
				r.argv = append(r.argv, luaVal{kind: "dec", t: t.args[1]})
			default:
				r.argv = append(r.argv, luaVal{kind: "str", t: t})
			}
		}
		toks, ok := luaLex(script)
		if !ok {
			x.unsupported("Lua: the script cannot be read")
		}
		p := &luaParser{t: toks}
		body := p.block()
		if p.bad || p.t[p.i].kind != 'e' {
			x.unsupported("Lua: the script cannot be parsed near %q", p.t[p.i].s)
		}
		x.used["Redis EVAL (assumed: the script runs atomically; the commands of the script are interpreted)"] = true
		x.use(st)
		x.event(st, "lua.start")
		x.heapArr(st, "$r.has", 1, SBool)
		x.heapArr(st, "$r.val", 1, SInt)
		x.heapArr(st, "$r.ttl", 1, SInt)
		// what other clients and earlier calls left behind is not known
		for _, h := range []string{"$r.has", "$r.val", "$r.ttl"} {
			st.heap[h] = c.Fresh("redis", st.heap[h].sort)
			st.heap["old"+h] = st.heap[h]
		}
		kk := c.Fresh("key", SInt)
		x.assume(st, c.Ge(x.rdHeap(st, "$r.ttl", []*Term{kk}, SInt), c.Int(0)), false)
		// the request may fail to reach the server, or its answer may be lost
		x.fork(st, c.Fresh("redis.reached", SBool), func(s *State) {
			end := func(s2 *State, v luaVal) {
				x.use(s2)
				bad := v.t
				if v.kind != "error" {
					bad = c.Bool(false)
				}
				x.event(s2, "lua.end", c.Bool(v.kind == "error"), bad)
				if v.kind == "error" {
					x.bump(s2, "$eval.failed")
					k(s2, []Val{&VIface{}, x.freshErr("redis")})
					return
				}
				x.fork(s2, c.Fresh("redis.answered", SBool), func(s3 *State) {
					x.bump(s3, "$eval")
					k(s3, []Val{&VIface{tag: c.Fresh("lua.tag", SInt), pay: c.Fresh("lua.res", SInt)}, &VIface{}})
				}, func(s3 *State) {
					x.bump(s3, "$eval.failed")
					k(s3, []Val{&VIface{}, x.freshErr("redis")})
				})
			}
			r.run(s, luaEnv{}, body, end, func(s2 *State, _ luaEnv) { end(s2, luaVal{kind: "nil"}) })
		}, func(s *State) {
			x.bump(s, "$eval.failed")
			k(s, []Val{&VIface{}, x.freshErr("redis")})
		})
	}
}
