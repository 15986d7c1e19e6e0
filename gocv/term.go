package main

// Terms: hash-consed SMT terms with a normalising constructor layer. Integers are mathematical;
// machine arithmetic is made explicit by "wrap" terms. "sum" terms are bounded sums over an
// integer variable; stores are pushed out of their bodies, so a sum over an updated array becomes
// the sum over the old array plus the difference at the updated index.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func (s Sort) isArr() bool   { return strings.HasPrefix(string(s), "(Array ") }
func (s Sort) keyVal() (Sort, Sort) {
	in := string(s)[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	id    int
	op    string
	args  []*Term
	coefs []*big.Int // lin
	n     *big.Int   // int constant / lin constant
	name  string
	sort  Sort
	hasB  bool     // mentions a free bound variable
	fb    []string // names of its free bound variables, sorted
	depth int      // nesting depth of binders
}

type itv struct{ lo, hi *big.Int }

// posRule is a fact about the values of a position function, for selector sel.
type posRule struct {
	sel string
	f   func(j *Term) *Term
}

type Ctx struct {
	cutIDs   map[string]int
	tab      map[string]*Term
	next     int
	fresh    map[string]int
	strs     map[string]*Term
	strVal   map[*Term]string
	bounds   *boundMap // facts of the state currently executing
	tagOf    map[string]int
	its      []*Term // iteration counters of the loops being executed
	nbv      int
	rules    map[string]func(t *Term) *Term  // ground facts about applications of a function
	selRules map[*Term][]func(i *Term) *Term // ground facts about elements of an array
	witness  bool
	perms    map[string]*Term      // bijections of [0,n): name to n
	selSums  []func(t *Term) *Term // sums over chosen elements as sums over all
	posRules map[string][]posRule  // ... about values of a position function
	atomMemo map[*Term]atomSet
	faMemo   map[*Term]bool
}

func newCtx() *Ctx {
	return &Ctx{selRules: map[*Term][]func(*Term) *Term{}, posRules: map[string][]posRule{}, rules: map[string]func(*Term) *Term{}, tab: map[string]*Term{}, fresh: map[string]int{}, strs: map[string]*Term{}, strVal: map[*Term]string{}, tagOf: map[string]int{}, atomMemo: map[*Term]atomSet{}, faMemo: map[*Term]bool{}}
}

func (c *Ctx) mk(op string, sort Sort, name string, n *big.Int, coefs []*big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(sort))
	if n != nil {
		b.WriteByte('#')
		b.WriteString(n.String())
	}
	for i, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
		if coefs != nil {
			b.WriteByte('*')
			b.WriteString(coefs[i].String())
		}
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, args: append([]*Term(nil), args...), coefs: coefs, n: n, name: name, sort: sort}
	c.next++
	if op == "bv" {
		t.fb = []string{name}
	}
	for _, a := range args {
		if a.depth > t.depth {
			t.depth = a.depth
		}
	}
	switch op {
	case "sum":
		t.fb = fbUnion(fbUnion(args[0].fb, args[1].fb), fbMinus(args[2].fb, name))
		t.depth++
	case "forall", "lam":
		t.fb = fbMinus(args[0].fb, name)
		t.depth++
	default:
		for _, a := range args {
			t.fb = fbUnion(t.fb, a.fb)
		}
	}
	t.hasB = len(t.fb) > 0
	c.tab[k] = t
	return t
}

func fbUnion(a, b []string) []string {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := append([]string(nil), a...)
	for _, s := range b {
		if !fbHas(a, s) {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}
func fbHas(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}
func fbMinus(a []string, s string) []string {
	if !fbHas(a, s) {
		return a
	}
	var out []string
	for _, x := range a {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

func (c *Ctx) Int(n int64) *Term       { return c.BigInt(big.NewInt(n)) }
func (c *Ctx) BigInt(n *big.Int) *Term { return c.mk("int", SInt, "", n, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.mk("true", SBool, "", nil, nil)
	}
	return c.mk("false", SBool, "", nil, nil)
}
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk("var", s, name, nil, nil) }
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	n := fmt.Sprintf("%s!%d", prefix, c.fresh[prefix])
	if len(c.its) > 0 {
		// inside loops: a function of the iteration
		return c.App(n+"#", s, c.its...)
	}
	return c.Var(n, s)
}

// TempBV is a bound variable not used anywhere else; binders rename it canonically.
func (c *Ctx) TempBV() *Term {
	c.nbv++
	return c.BV(fmt.Sprintf("!t%d", c.nbv))
}
func (c *Ctx) BV(name string) *Term { return c.mk("bv", SInt, name, nil, nil) }
func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!', r == '@':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isInt() bool   { return t.op == "int" }

// Str interns a Go string constant as an integer code.
func (c *Ctx) Str(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	var n int64
	if s != "" {
		h := uint64(14695981039346656037)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		n = int64(h>>24) + 1000003 // content based, collisions checked below
		for {
			t := c.Int(n)
			if _, ok := c.strVal[t]; !ok {
				break
			}
			n++
		}
	}
	t := c.Int(n)
	c.strs[s] = t
	c.strVal[t] = s
	return t
}

// ---------- linear arithmetic ----------

type linForm struct {
	m map[*Term]*big.Int
	k *big.Int
}

func (c *Ctx) toLin(t *Term) linForm {
	l := linForm{map[*Term]*big.Int{}, big.NewInt(0)}
	c.addTo(&l, t, big.NewInt(1))
	return l
}
func (c *Ctx) addTo(l *linForm, t *Term, co *big.Int) {
	if co.Sign() == 0 {
		return
	}
	switch t.op {
	case "int":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(co, t.n))
	case "lin":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(co, t.n))
		for i, a := range t.args {
			c.addTo(l, a, new(big.Int).Mul(co, t.coefs[i]))
		}
	default:
		o := l.m[t]
		if o == nil {
			o = big.NewInt(0)
		}
		s := new(big.Int).Add(o, co)
		if s.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = s
		}
	}
}
func (c *Ctx) fromLin(l linForm) *Term {
	if len(l.m) == 0 {
		return c.BigInt(l.k)
	}
	ts := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.k.Sign() == 0 && l.m[ts[0]].Cmp(big.NewInt(1)) == 0 {
		return ts[0]
	}
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	return c.mk("lin", SInt, "", l.k, cs, ts...)
}
func (c *Ctx) Add(ts ...*Term) *Term {
	l := linForm{map[*Term]*big.Int{}, big.NewInt(0)}
	for _, t := range ts {
		c.addTo(&l, t, big.NewInt(1))
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.toLin(a)
	c.addTo(&l, b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }
func (c *Ctx) Scale(a *Term, k *big.Int) *Term {
	l := linForm{map[*Term]*big.Int{}, big.NewInt(0)}
	c.addTo(&l, a, k)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isInt() {
		return c.Scale(b, a.n)
	}
	if b.isInt() {
		return c.Scale(a, b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("mul", SInt, "", nil, nil, a, b)
}

// Div and Mod are SMT-LIB's Euclidean division for a positive divisor.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() > 0 {
		if b.n.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.isInt() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.n, b.n, m)
			return c.BigInt(q)
		}
	}
	return c.mk("div", SInt, "", nil, nil, a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() > 0 && a.isInt() {
		return c.BigInt(new(big.Int).Mod(a.n, b.n))
	}
	return c.mk("mod", SInt, "", nil, nil, a, b)
}

// ---------- bounds ----------

type boundMap struct{ m map[*Term]itv }

func (b *boundMap) clone() *boundMap {
	n := &boundMap{m: make(map[*Term]itv, len(b.m))}
	for k, v := range b.m {
		n.m[k] = v
	}
	return n
}
func (b *boundMap) setLo(t *Term, lo *big.Int) {
	v := b.m[t]
	if v.lo == nil || v.lo.Cmp(lo) < 0 {
		v.lo = lo
		b.m[t] = v
	}
}
func (b *boundMap) setHi(t *Term, hi *big.Int) {
	v := b.m[t]
	if v.hi == nil || v.hi.Cmp(hi) > 0 {
		v.hi = hi
		b.m[t] = v
	}
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func wrapRange(kind string) (lo, hi, m *big.Int) {
	var bits uint
	fmt.Sscanf(kind[1:], "%d", &bits)
	m = new(big.Int).Lsh(big.NewInt(1), bits)
	if kind[0] == 's' {
		h := new(big.Int).Lsh(big.NewInt(1), bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), m
	}
	return big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1)), m
}

func (c *Ctx) bnd(t *Term) itv { return c.bndD(t, 6) }
func (c *Ctx) bndD(t *Term, d int) itv {
	var r itv
	if c.bounds != nil {
		r = c.bounds.m[t]
	}
	if d == 0 {
		return r
	}
	meet := func(o itv) {
		if o.lo != nil && (r.lo == nil || r.lo.Cmp(o.lo) < 0) {
			r.lo = o.lo
		}
		if o.hi != nil && (r.hi == nil || r.hi.Cmp(o.hi) > 0) {
			r.hi = o.hi
		}
	}
	switch t.op {
	case "int":
		return itv{t.n, t.n}
	case "lin":
		lo, hi := new(big.Int).Set(t.n), new(big.Int).Set(t.n)
		okl, okh := true, true
		for i, a := range t.args {
			b := c.bndD(a, d-1)
			al, ah := b.lo, b.hi
			if t.coefs[i].Sign() < 0 {
				al, ah = b.hi, b.lo
			}
			if al == nil {
				okl = false
			} else if okl {
				lo.Add(lo, new(big.Int).Mul(al, t.coefs[i]))
			}
			if ah == nil {
				okh = false
			} else if okh {
				hi.Add(hi, new(big.Int).Mul(ah, t.coefs[i]))
			}
		}
		var o itv
		if okl {
			o.lo = lo
		}
		if okh {
			o.hi = hi
		}
		meet(o)
		// a fact on the variable part with another constant
		if c.bounds != nil && t.n.Sign() != 0 {
			base := c.Sub(t, c.BigInt(t.n))
			if f, ok := c.bounds.m[base]; ok {
				var o2 itv
				if f.lo != nil {
					o2.lo = new(big.Int).Add(f.lo, t.n)
				}
				if f.hi != nil {
					o2.hi = new(big.Int).Add(f.hi, t.n)
				}
				meet(o2)
			}
			nb := c.Neg(base)
			if f, ok := c.bounds.m[nb]; ok {
				var o2 itv
				if f.hi != nil {
					o2.lo = new(big.Int).Sub(t.n, f.hi)
				}
				if f.lo != nil {
					o2.hi = new(big.Int).Sub(t.n, f.lo)
				}
				meet(o2)
			}
		}
	case "wrap":
		lo, hi, _ := wrapRange(t.name)
		meet(itv{lo, hi})
	case "ite":
		a, b := c.bndD(t.args[1], d-1), c.bndD(t.args[2], d-1)
		var o itv
		if a.lo != nil && b.lo != nil {
			o.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			o.hi = bmax(a.hi, b.hi)
		}
		meet(o)
	case "app":
		switch t.name {
		case "band":
			a, b := c.bndD(t.args[0], d-1), c.bndD(t.args[1], d-1)
			if a.lo != nil && a.lo.Sign() >= 0 {
				meet(itv{big.NewInt(0), a.hi})
			}
			if b.lo != nil && b.lo.Sign() >= 0 {
				meet(itv{big.NewInt(0), b.hi})
			}
		case "bor", "bxor":
			a, b := c.bndD(t.args[0], d-1), c.bndD(t.args[1], d-1)
			if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
				var o itv
				o.lo = big.NewInt(0)
				if t.name == "bor" {
					o.lo = bmax(a.lo, b.lo)
				}
				if a.hi != nil && b.hi != nil {
					// below the next power of two of the larger bound
					n := bmax(a.hi, b.hi).BitLen()
					o.hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
				}
				meet(o)
			}
		case "strlen":
			meet(itv{big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 48)})
		}
	case "mul":
		if len(t.args) == 2 {
			a, b := c.bndD(t.args[0], d-1), c.bndD(t.args[1], d-1)
			if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
				o := itv{lo: new(big.Int).Mul(a.lo, b.lo)}
				if a.hi != nil && b.hi != nil {
					o.hi = new(big.Int).Mul(a.hi, b.hi)
				}
				meet(o)
			}
		}
	case "div":
		if t.args[1].isInt() && t.args[1].n.Sign() > 0 {
			a := c.bndD(t.args[0], d-1)
			var o itv
			if a.lo != nil {
				o.lo = fdiv(a.lo, t.args[1].n)
			}
			if a.hi != nil {
				o.hi = fdiv(a.hi, t.args[1].n)
			}
			meet(o)
		}
	case "mod":
		b := c.bndD(t.args[1], d-1)
		if b.lo != nil && b.lo.Sign() > 0 {
			o := itv{lo: big.NewInt(0)}
			if b.hi != nil {
				o.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
			}
			meet(o)
		}
	}
	return r
}
func fdiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// ---------- comparisons and booleans ----------

func (c *Ctx) Le(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		if a == b {
			return c.Bool(true)
		}
		return c.mk("le", SBool, "", nil, nil, a, b)
	}
	d := c.Sub(a, b)
	if d.isInt() {
		return c.Bool(d.n.Sign() <= 0)
	}
	bd := c.bnd(d)
	if bd.hi != nil && bd.hi.Sign() <= 0 {
		return c.Bool(true)
	}
	if bd.lo != nil && bd.lo.Sign() > 0 {
		return c.Bool(false)
	}
	return c.leRaw(d)
}

// leRaw builds d <= 0 without consulting the facts.
func (c *Ctx) leRaw(d *Term) *Term {
	if d.isInt() {
		return c.Bool(d.n.Sign() <= 0)
	}
	l, r := c.splitSides(d)
	// canonical: not(r < l) forms are expressed through Le only
	return c.mk("le", SBool, "", nil, nil, l, r)
}
func (c *Ctx) splitSides(d *Term) (*Term, *Term) {
	l := linForm{map[*Term]*big.Int{}, big.NewInt(0)}
	r := linForm{map[*Term]*big.Int{}, big.NewInt(0)}
	f := c.toLin(d)
	for t, co := range f.m {
		if co.Sign() > 0 {
			l.m[t] = co
		} else {
			r.m[t] = new(big.Int).Neg(co)
		}
	}
	if f.k.Sign() > 0 {
		l.k = f.k
	} else {
		r.k = new(big.Int).Neg(f.k)
	}
	return c.fromLin(l), c.fromLin(r)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return c.Not(c.Le(b, a))
	}
	return c.Le(c.Add(a, c.Int(1)), b)
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.Bool(true)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.sort == SInt && b.sort == SInt {
		d := c.Sub(a, b)
		if d.isInt() {
			return c.Bool(d.n.Sign() == 0)
		}
		bd := c.bnd(d)
		if bd.lo != nil && bd.lo.Sign() > 0 || bd.hi != nil && bd.hi.Sign() < 0 {
			return c.Bool(false)
		}
		if a.op == "app" && b.op == "app" && a.name == b.name && strings.HasPrefix(a.name, "inj.") && len(a.args) == len(b.args) {
			es := make([]*Term, len(a.args))
			for i := range es {
				es[i] = c.Eq(a.args[i], b.args[i])
			}
			return c.And(es...)
		}
		// distribute over an ite against a constant
		if b.isInt() && a.op == "ite" && a.args[1].isInt() && a.args[2].isInt() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if a.isInt() && b.op == "ite" {
			return c.Eq(b, a)
		}
		l, r := c.splitSides(d)
		if l.id > r.id {
			l, r = r, l
		}
		return c.mk("eq", SBool, "", nil, nil, l, r)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("eq", SBool, "", nil, nil, a, b)
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }
func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.Bool(false)
	case "false":
		return c.Bool(true)
	case "not":
		return a.args[0]
	case "le":
		if a.args[0].sort == SInt {
			// not(l <= r)  ==  r+1 <= l
			return c.leRaw(c.Sub(c.Add(a.args[1], c.Int(1)), a.args[0]))
		}
	}
	return c.mk("not", SBool, "", nil, nil, a)
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary("and", ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary("or", ts) }
func (c *Ctx) nary(op string, ts []*Term) *Term {
	unit, zero := "true", "false"
	if op == "or" {
		unit, zero = zero, unit
	}
	set := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == unit {
			return true
		}
		if t.op == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if set[c.Not(t)] {
			return false
		}
		set[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.Bool(op == "or")
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(op == "and")
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, SBool, "", nil, nil, out...)
}
func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if cond.op == "not" {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
		return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
	}
	if cond.op == "le" && cond.args[0].sort == SInt {
		// one polarity of each comparison
		if n := c.Not(cond); n.id < cond.id {
			return c.Ite(n, b, a)
		}
	}
	if a.op == "ite" && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	return c.mk("ite", a.sort, "", nil, nil, cond, a, b)
}

// ---------- arrays ----------

func (c *Ctx) ConstArr(s Sort, v *Term) *Term { return c.mk("constarr", s, "", nil, nil, v) }
func (c *Ctx) Select(a, i *Term) *Term {
	_, vs := a.sort.keyVal()
	switch a.op {
	case "store":
		e := c.Eq(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			return c.Select(a.args[0], i)
		}
		return c.Ite(e, a.args[2], c.Select(a.args[0], i))
	case "constarr":
		return a.args[0]
	case "lam":
		return c.Subst(a.args[0], c.BV(a.name), i)
	case "ite":
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	return c.mk("select", vs, "", nil, nil, a, i)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	// drop an older store to the same index below provably different ones
	if a.op == "store" {
		if e := c.Eq(a.args[1], i); e.isFalse() && a.args[0].op == "store" && a.args[0].args[1] == i {
			return c.Store(c.Store(a.args[0].args[0], a.args[1], a.args[2]), i, v)
		}
	}
	return c.mk("store", a.sort, "", nil, nil, a, i, v)
}

// SelectN / StoreN index nested arrays.
func (c *Ctx) SelectN(a *Term, idx []*Term) *Term {
	for _, i := range idx {
		a = c.Select(a, i)
	}
	return a
}
func (c *Ctx) StoreN(a *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	if len(idx) == 1 {
		return c.Store(a, idx[0], v)
	}
	return c.Store(a, idx[0], c.StoreN(c.Select(a, idx[0]), idx[1:], v))
}

// Lam is the array mapping the bound variable bv to body.
func (c *Ctx) Lam(bv, body *Term) *Term {
	s := arrSort(SInt, body.sort)
	if !c.contains(body, bv) {
		return c.ConstArr(s, body)
	}
	if body.op == "select" && body.args[1] == bv && !c.contains(body.args[0], bv) {
		return body.args[0]
	}
	name, b := c.canon("!r", bv, body)
	return c.mk("lam", s, name, nil, nil, b)
}

// canon renames bv in body to a name fixed by the shape of the body.
func (c *Ctx) canon(prefix string, bv, body *Term) (string, *Term) {
	k := body.depth
	for {
		n := fmt.Sprintf("%s%d", prefix, k)
		if n == bv.name {
			return n, body
		}
		if !fbHas(body.fb, n) {
			return n, c.Subst(body, bv, c.BV(n))
		}
		k++
	}
}

func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	if name == "ispow2" {
		if a := args[0]; a.isInt() {
			return c.Bool(a.n.Sign() > 0 && new(big.Int).And(a.n, new(big.Int).Sub(a.n, big.NewInt(1))).Sign() == 0)
		} else if a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return c.Ite(a.args[0], c.App(name, s, a.args[1]), c.App(name, s, a.args[2]))
		}
	}
	if n := len(args) - 1; strings.HasPrefix(name, "mpos#") && args[n].op == "app" && args[n].name == "mkey#"+name[5:] && len(args[n].args) == n+1 {
		same := true
		for i := 0; i < n; i++ {
			same = same && args[i] == args[n].args[i]
		}
		if same {
			return args[n].args[n]
		}
	}
	if strings.HasPrefix(name, "prj") && len(args) == 1 && args[0].op == "app" {
		// projection of an injective constructor
		if i := strings.Index(name, "."); i > 0 && args[0].name == name[i+1:] {
			var k int
			fmt.Sscanf(name[3:i], "%d", &k)
			if k < len(args[0].args) {
				return args[0].args[k]
			}
		}
	}
	return c.mk("app", s, name, nil, nil, args...)
}

// Wrap is the representative of t modulo 2^bits in the range of kind ("s64", "u32", ...).
func (c *Ctx) Wrap(kind string, t *Term) *Term {
	lo, hi, m := wrapRange(kind)
	in := func(t *Term) bool {
		b := c.bnd(t)
		return b.lo != nil && b.hi != nil && b.lo.Cmp(lo) >= 0 && b.hi.Cmp(hi) <= 0
	}
	if t.isInt() {
		r := new(big.Int).Mod(t.n, m)
		if r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return c.BigInt(r)
	}
	if in(t) {
		return t
	}
	// strip inner wraps of at least the same width
	for changed := true; changed; {
		changed = false
		f := c.toLin(t)
		l := linForm{map[*Term]*big.Int{}, new(big.Int).Set(f.k)}
		for a, co := range f.m {
			if a.op == "wrap" {
				_, _, m2 := wrapRange(a.name)
				if m2.Cmp(m) >= 0 {
					changed = true
					c.addTo(&l, a.args[0], co)
					continue
				}
			}
			if a.op == "sum" || a.op == "ite" {
				if u := c.unwrapped(a, m); u != a {
					changed = true
					c.addTo(&l, u, co)
					continue
				}
			}
			c.addTo(&l, a, co)
		}
		// reduce coefficients modulo m (symmetric)
		h := new(big.Int).Rsh(m, 1)
		red := func(x *big.Int) *big.Int {
			r := new(big.Int).Mod(x, m)
			if r.Cmp(h) >= 0 {
				r.Sub(r, m)
			}
			return r
		}
		l.k = red(l.k)
		for a, co := range l.m {
			r := red(co)
			if r.Sign() == 0 {
				delete(l.m, a)
			} else {
				l.m[a] = r
			}
		}
		t = c.fromLin(l)
	}
	if t.isInt() {
		return c.Wrap(kind, t)
	}
	if in(t) {
		return t
	}
	// ite pull for small cases: wrap(ite(c,k1,k2)) with constants handled by bounds above
	return c.mk("wrap", SInt, kind, nil, nil, t)
}

// unwrapped drops wraps that do not matter modulo m from the summands of a sum and the branches of an ite.
func (c *Ctx) unwrapped(t *Term, m *big.Int) *Term {
	switch t.op {
	case "wrap":
		if _, _, m2 := wrapRange(t.name); m2.Cmp(m) >= 0 {
			return c.unwrapped(t.args[0], m)
		}
	case "ite":
		if t.sort != SInt {
			return t
		}
		a, b := c.unwrapped(t.args[1], m), c.unwrapped(t.args[2], m)
		if a != t.args[1] || b != t.args[2] {
			return c.Ite(t.args[0], a, b)
		}
	case "sum":
		if b := c.unwrapped(t.args[2], m); b != t.args[2] {
			tmp := c.TempBV()
			return c.Sum(tmp, t.args[0], t.args[1], c.Subst(b, c.BV(t.name), tmp))
		}
	case "lin":
		f := c.toLin(t)
		l := linForm{map[*Term]*big.Int{}, new(big.Int).Set(f.k)}
		changed := false
		for a, co := range f.m {
			u := c.unwrapped(a, m)
			changed = changed || u != a
			c.addTo(&l, u, co)
		}
		if changed {
			return c.fromLin(l)
		}
	}
	return t
}

// ---------- substitution ----------

// Subst replaces the term v by r.
func (c *Ctx) Subst(t, v, r *Term) *Term {
	if v == r {
		return t
	}
	return c.SubstMap(t, map[*Term]*Term{v: r})
}
func (c *Ctx) SubstMap(t *Term, m map[*Term]*Term) *Term {
	var fb []string
	for _, r := range m {
		fb = fbUnion(fb, r.fb)
	}
	return c.rewrite(t, map[*Term]*Term{}, fb, func(x *Term) *Term { return m[x] })
}

// rewrite replaces subterms by f, bottom up; fb lists the free bound variables of replacements.
func (c *Ctx) rewrite(t *Term, memo map[*Term]*Term, fb []string, f func(*Term) *Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	name := t.name
	src := t.args
	binder := t.op == "sum" || t.op == "forall" || t.op == "lam"
	last := len(t.args) - 1
	if binder && fbHas(fb, t.name) {
		// alpha-rename to avoid capture
		nb := c.TempBV()
		src = append([]*Term(nil), t.args...)
		src[last] = c.Subst(src[last], c.BV(t.name), nb)
		name = nb.name
		ch = true
	}
	for i, a := range src {
		if binder && i == last && f(c.BV(name)) != nil {
			// the variable being replaced is shadowed here
			bv := c.BV(name)
			args[i] = c.rewrite(a, map[*Term]*Term{}, fb, func(x *Term) *Term {
				if x == bv {
					return nil
				}
				return f(x)
			})
		} else {
			args[i] = c.rewrite(a, memo, fb, f)
		}
		if args[i] != t.args[i] {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.rebuildN(t, name, args)
	}
	memo[t] = r
	return r
}
func (c *Ctx) rebuildN(t *Term, name string, args []*Term) *Term {
	switch t.op {
	case "sum":
		return c.Sum(c.BV(name), args[0], args[1], args[2])
	case "forall":
		return c.Forall(c.BV(name), args[0])
	case "lam":
		return c.Lam(c.BV(name), args[0])
	}
	return c.rebuild(t, args)
}
func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "lin":
		l := linForm{map[*Term]*big.Int{}, new(big.Int).Set(t.n)}
		for i, a := range args {
			c.addTo(&l, a, t.coefs[i])
		}
		return c.fromLin(l)
	case "mul":
		return c.Mul(args[0], args[1])
	case "div":
		return c.Div(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "eq":
		return c.Eq(args[0], args[1])
	case "le":
		return c.Le(args[0], args[1])
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "wrap":
		return c.Wrap(t.name, args[0])
	case "app":
		return c.App(t.name, t.sort, args...)
	case "constarr":
		return c.ConstArr(t.sort, args[0])
	}
	return c.mk(t.op, t.sort, t.name, t.n, t.coefs, args...)
}

func (c *Ctx) contains(t, x *Term) bool {
	if x.op == "bv" {
		return fbHas(t.fb, x.name)
	}
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(u *Term) bool {
		if u == x {
			return true
		}
		if seen[u] {
			return false
		}
		seen[u] = true
		for _, a := range u.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// ---------- sums ----------

// Sum builds the sum of body over bv in [lo,hi).
func (c *Ctx) Sum(bv, lo, hi, body *Term) *Term {
	zero := c.Int(0)
	if lo.isInt() && hi.isInt() && hi.n.Cmp(lo.n) <= 0 {
		return zero
	}
	if !c.contains(body, bv) {
		if body.isInt() && body.n.Sign() == 0 {
			return zero
		}
		return c.Mul(body, c.Ite(c.Le(hi, lo), zero, c.Sub(hi, lo)))
	}
	// a constant on some of the range
	if body.op == "ite" {
		for i := 1; i <= 2; i++ {
			k, z := body.args[i], body.args[3-i]
			if k.isInt() && z.isInt() && z.n.Sign() == 0 && k.n.Cmp(bigOne) != 0 && k.n.Sign() != 0 {
				as := []*Term{body.args[0], zero, zero}
				as[i] = c.Int(1)
				return c.Scale(c.Sum(bv, lo, hi, c.Ite(as[0], as[1], as[2])), k.n)
			}
		}
	}
	// a sum over all of a permuted range
	if len(c.perms) > 0 && lo.isInt() && lo.n.Sign() == 0 {
		if p := c.permOf(body, bv); p != nil && c.perms[p.name] == hi {
			t := c.TempBV()
			if nb := c.Subst(body, p, t); !c.contains(nb, bv) {
				return c.Sum(t, lo, hi, nb)
			}
		}
	}
	// linear split
	if body.op == "lin" {
		f := c.toLin(body)
		var parts []*Term
		if f.k.Sign() != 0 {
			parts = append(parts, c.Sum(bv, lo, hi, c.BigInt(f.k)))
		}
		for t, co := range f.m {
			parts = append(parts, c.Scale(c.Sum(bv, lo, hi, t), co))
		}
		return c.Add(parts...)
	}
	// ite pulling
	if cond := c.pullable(body, bv); cond != nil {
		bt := c.assume(body, cond, true)
		bf := c.assume(body, cond, false)
		if !c.contains(cond, bv) {
			return c.Ite(cond, c.Sum(bv, lo, hi, bt), c.Sum(bv, lo, hi, bf))
		}
		// cond is bv == t
		at := c.solveFor(cond, bv)
		diff := c.Sub(c.Subst(bt, bv, at), c.Subst(bf, bv, at))
		return c.Add(c.Sum(bv, lo, hi, bf), c.Ite(c.And(c.Le(lo, at), c.Lt(at, hi)), diff, zero))
	}
	// shift normalisation: every occurrence bv+k with one k != 0
	if k, ok := c.commonShift(body, bv); ok && k.Sign() != 0 {
		kt := c.BigInt(k)
		nb := c.Subst(body, bv, c.Sub(bv, kt))
		return c.Sum(bv, c.Add(lo, kt), c.Add(hi, kt), nb)
	}
	name, b := c.canon("!i", bv, body)
	return c.mk("sum", SInt, name, nil, nil, lo, hi, b)
}

// permOf finds the application of a bijection to bv in t.
func (c *Ctx) permOf(t, bv *Term) *Term {
	var found *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && c.perms[t.name] != nil && t.args[len(t.args)-1] == bv {
			found = t
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return found
}

// solveFor returns t for a condition equivalent to bv == t.
func (c *Ctx) solveFor(cond, bv *Term) *Term {
	d := c.Sub(cond.args[0], cond.args[1])
	f := c.toLin(d)
	co := f.m[bv]
	if co == nil || co.CmpAbs(big.NewInt(1)) != 0 {
		return nil
	}
	rest := c.Sub(d, c.Scale(bv, co))
	if c.contains(rest, bv) {
		return nil
	}
	if co.Sign() > 0 {
		return c.Neg(rest)
	}
	return rest
}

// pullable finds an ite condition in body that is independent of bv or of the form bv == t.
func (c *Ctx) pullable(body, bv *Term) *Term {
	seen := map[*Term]bool{}
	var f func(*Term) *Term
	f = func(u *Term) *Term {
		if seen[u] {
			return nil
		}
		seen[u] = true
		if u.sort == SBool {
			switch u.op {
			case "and", "or", "not":
			default:
				if !c.contains(u, bv) {
					if u.op != "true" && u.op != "false" && !u.hasB {
						return u
					}
				} else if u.op == "eq" && u.args[0].sort == SInt && c.solveFor(u, bv) != nil {
					return u
				}
			}
		}
		if u.op == "sum" || u.op == "forall" {
			return nil
		}
		for _, a := range u.args {
			if r := f(a); r != nil {
				return r
			}
		}
		return nil
	}
	return f(body)
}

// assume rewrites body under cond == val.
func (c *Ctx) assume(body, cond *Term, val bool) *Term {
	b := c.Bool(val)
	return c.rewrite(body, map[*Term]*Term{}, nil, func(x *Term) *Term {
		if x == cond {
			return b
		}
		return nil
	})
}

func (c *Ctx) commonShift(body, bv *Term) (*big.Int, bool) {
	var k *big.Int
	ok := true
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(u *Term) {
		if seen[u] || !ok {
			return
		}
		seen[u] = true
		if u == bv {
			if k == nil {
				k = big.NewInt(0)
			} else if k.Sign() != 0 {
				ok = false
			}
			return
		}
		if u.op == "lin" {
			for i, a := range u.args {
				if a == bv {
					if u.coefs[i].Cmp(big.NewInt(1)) != 0 {
						ok = false
						return
					}
					if k == nil {
						k = u.n
					} else if k.Cmp(u.n) != 0 {
						ok = false
						return
					}
				} else {
					f(a)
				}
			}
			return
		}
		for _, a := range u.args {
			f(a)
		}
	}
	f(body)
	if k == nil || !ok {
		return nil, false
	}
	return k, true
}

// Forall quantifies bv over all integers.
func (c *Ctx) Forall(bv, body *Term) *Term {
	if body.isTrue() {
		return body
	}
	if !c.contains(body, bv) {
		return body
	}
	name, b := c.canon("!q", bv, body)
	return c.mk("forall", SBool, name, nil, nil, b)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	s := b.String()
	if len(s) > 600 && os.Getenv("GOCV_FULL") == "" {
		s = s[:600] + "…"
	}
	return s
}
func (t *Term) write(b *strings.Builder, d int) {
	if b.Len() > 700 && os.Getenv("GOCV_FULL") == "" {
		return
	}
	switch t.op {
	case "int":
		b.WriteString(t.n.String())
	case "var", "bv":
		b.WriteString(t.name)
	case "true", "false":
		b.WriteString(t.op)
	case "lin":
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coefs[i].Cmp(big.NewInt(1)) != 0 {
				b.WriteString(t.coefs[i].String() + "*")
			}
			a.write(b, d+1)
		}
		if t.n.Sign() != 0 {
			b.WriteByte(' ')
			b.WriteString(t.n.String())
		}
		b.WriteByte(')')
	default:
		b.WriteByte('(')
		b.WriteString(t.op)
		if t.name != "" {
			b.WriteString(":" + t.name)
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, d+1)
		}
		b.WriteByte(')')
	}
}
