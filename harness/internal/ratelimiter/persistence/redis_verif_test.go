package persistence

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"
)

// An in-memory Redis that runs the script it is given: strings, hashes and lifetimes, and enough
// Lua for straight-line scripts with conditions. lskip is raised for anything it does not know.

type rval struct {
	str  string
	hash map[string]string
	ttl  int64 // seconds, 0 for none
}

type fredis struct {
	mu      sync.Mutex
	db      map[string]*rval
	calls   int
	reached []int // numbers of the calls whose script ran without an error
	failAt  int
	how     int // 0 before the script, 1 after it
	err     error
	failed  bool // some call returned an error
	late    bool // a call came after a failed one
	skip    string
	args    []string
}

type lskip string
type lerr struct{ error }
type lret struct{ v interface{} }

func (f *fredis) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	var ss []string
	for _, a := range args {
		switch w := a.(type) {
		case string:
			ss = append(ss, w)
		case []byte:
			ss = append(ss, string(w))
		case int, int64, int32, int16, int8, uint, uint64, uint32, uint16, uint8:
			ss = append(ss, fmt.Sprint(w))
		case float64:
			ss = append(ss, strconv.FormatFloat(w, 'f', -1, 64))
		case bool:
			ss = append(ss, map[bool]string{true: "1", false: "0"}[w])
		default:
			return nil, fmt.Errorf("redis: can't marshal %T", a)
		}
	}
	return f.eval(script, keys, ss)
}

func (f *fredis) eval(script string, keys, args []string) (res interface{}, err error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.calls
	f.calls++
	f.late = f.late || f.failed
	if n == f.failAt && f.how == 0 {
		f.failed = true
		return nil, f.err
	}
	func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case lskip:
				f.skip = string(e)
			case lerr:
				err = e.error
			case lret:
				res = e.v
			default:
				panic(e)
			}
		}()
		t := llex(script)
		p := &lrun{f: f, t: t, keys: keys, args: args, env: []map[string]interface{}{{}}}
		p.block(true)
		if p.peek().kind != 'e' {
			panic(lskip("unexpected " + p.peek().s))
		}
	}()
	if err == nil {
		f.reached = append(f.reached, n)
		if n == f.failAt {
			err = f.err
		}
	}
	if err != nil {
		f.failed = true
		return nil, err
	}
	return res, nil
}

type ltok struct {
	kind byte
	s    string
}

func llex(q string) (out []ltok) {
	for i := 0; i < len(q); {
		ch := rune(q[i])
		switch {
		case unicode.IsSpace(ch):
			i++
		case strings.HasPrefix(q[i:], "--[["):
			j := strings.Index(q[i:], "]]")
			if j < 0 {
				panic(lskip("comment"))
			}
			i += j + 2
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case unicode.IsLetter(ch) || ch == '_':
			j := i
			for j < len(q) && (unicode.IsLetter(rune(q[j])) || unicode.IsDigit(rune(q[j])) || q[j] == '_') {
				j++
			}
			out = append(out, ltok{'i', q[i:j]})
			i = j
		case unicode.IsDigit(ch):
			j := i
			for j < len(q) && (unicode.IsDigit(rune(q[j])) || q[j] == '.' && j+1 < len(q) && q[j+1] != '.') {
				j++
			}
			out = append(out, ltok{'n', q[i:j]})
			i = j
		case ch == '\'' || ch == '"':
			j := i + 1
			for j < len(q) && rune(q[j]) != ch {
				if q[j] == '\\' {
					panic(lskip("escape"))
				}
				j++
			}
			if j >= len(q) {
				panic(lskip("string"))
			}
			out = append(out, ltok{'s', q[i+1 : j]})
			i = j + 1
		default:
			n := 1
			for _, o := range []string{"==", "~=", "<=", ">=", ".."} {
				if strings.HasPrefix(q[i:], o) {
					n = 2
				}
			}
			out = append(out, ltok{'o', q[i : i+n]})
			i += n
		}
	}
	return append(out, ltok{'e', ""})
}

type lrun struct {
	f          *fredis
	t          []ltok
	i          int
	keys, args []string
	env        []map[string]interface{}
}

func (p *lrun) peek() ltok { return p.t[p.i] }
func (p *lrun) is(s string) bool {
	return p.t[p.i].kind != 's' && p.t[p.i].s == s
}
func (p *lrun) take(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *lrun) want(s string) {
	if !p.take(s) {
		panic(lskip("want " + s + " at " + p.peek().s))
	}
}

func (p *lrun) scoped(run bool) {
	p.env = append(p.env, map[string]interface{}{})
	p.block(run)
	p.env = p.env[:len(p.env)-1]
}

func (p *lrun) block(run bool) {
	for p.peek().kind != 'e' && !p.is("end") && !p.is("else") && !p.is("elseif") {
		switch {
		case p.take(";"):
		case p.take("local"):
			n := p.peek().s
			p.i++
			var v interface{}
			if p.take("=") {
				v = p.expr(0, run)
			}
			if p.is(",") {
				panic(lskip("several variables"))
			}
			p.env[len(p.env)-1][n] = v
		case p.take("return"):
			var v interface{}
			if p.peek().kind != 'e' && !p.is("end") && !p.is("else") && !p.is("elseif") && !p.is(";") {
				v = p.expr(0, run)
			}
			if run {
				panic(lret{v})
			}
		case p.take("do"):
			p.scoped(run)
			p.want("end")
		case p.take("if"):
			p.cond(run)
		case p.peek().kind == 'i' && p.t[p.i+1].s == "=" && p.t[p.i+1].kind == 'o':
			n := p.peek().s
			p.i += 2
			v := p.expr(0, run)
			if run {
				p.set(n, v)
			}
		default:
			p.expr(0, run)
		}
	}
}

func (p *lrun) set(n string, v interface{}) {
	for i := len(p.env) - 1; i >= 0; i-- {
		if _, ok := p.env[i][n]; ok {
			p.env[i][n] = v
			return
		}
	}
	panic(lskip("global " + n))
}

func (p *lrun) cond(run bool) {
	c := ltrue(p.expr(0, run))
	p.want("then")
	p.scoped(run && c)
	switch {
	case p.take("elseif"):
		p.cond(run && !c)
		return
	case p.take("else"):
		p.scoped(run && !c)
	}
	p.want("end")
}

func ltrue(v interface{}) bool { return v != nil && v != false }

var lprec = map[string]int{"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "..": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func (p *lrun) expr(min int, run bool) (a interface{}) {
	switch {
	case p.take("not"):
		a = !ltrue(p.expr(7, run))
	case p.take("-"):
		v := p.expr(7, run)
		if run {
			a = -lnum(v)
		}
	default:
		a = p.prim(run)
	}
	for p.peek().kind != 's' {
		op := p.peek().s
		pr, ok := lprec[op]
		if !ok || pr <= min {
			return a
		}
		p.i++
		r := pr
		if op == ".." {
			r--
		}
		on := run
		if op == "and" || op == "or" {
			on = run && ltrue(a) == (op == "and")
			b := p.expr(r, on)
			if on {
				a = b
			}
			continue
		}
		b := p.expr(r, run)
		if !run {
			continue
		}
		switch op {
		case "==":
			a = a == b
		case "~=":
			a = a != b
		case "..":
			a = lstr(a) + lstr(b)
		case "<", ">", "<=", ">=":
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if !ok1 || !ok2 {
				s, ok3 := a.(string)
				u, ok4 := b.(string)
				if !ok3 || !ok4 {
					panic(lerr{errors.New("attempt to compare")})
				}
				x, y = float64(strings.Compare(s, u)), 0
			}
			a = op == "<" && x < y || op == ">" && x > y || op == "<=" && x <= y || op == ">=" && x >= y
		default:
			x, y := lnum(a), lnum(b)
			switch op {
			case "+":
				a = x + y
			case "-":
				a = x - y
			case "*":
				a = x * y
			case "/":
				a = x / y
			case "%":
				a = x - math.Floor(x/y)*y
			}
		}
	}
	return a
}

func lnum(v interface{}) float64 {
	switch w := v.(type) {
	case float64:
		return w
	case string:
		if n, err := strconv.ParseFloat(strings.TrimSpace(w), 64); err == nil {
			return n
		}
	}
	panic(lerr{fmt.Errorf("attempt to perform arithmetic on %T", v)})
}

// lstr is the text of a value: Lua writes numbers with 14 digits.
func lstr(v interface{}) string {
	switch w := v.(type) {
	case string:
		return w
	case float64:
		return cfmt(w, 14)
	}
	panic(lerr{fmt.Errorf("attempt to concatenate %T", v)})
}

// cfmt is C's %.<n>g.
func cfmt(f float64, n int) string {
	s := strconv.FormatFloat(f, 'e', n-1, 64)
	e, _ := strconv.Atoi(s[strings.Index(s, "e")+1:])
	if e < -4 || e >= n {
		m := s[:strings.Index(s, "e")]
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		return fmt.Sprintf("%se%+03d", m, e)
	}
	s = strconv.FormatFloat(f, 'f', n-1-e, 64)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	return s
}

func (p *lrun) prim(run bool) interface{} {
	t := p.peek()
	p.i++
	switch {
	case t.kind == 'n':
		n, err := strconv.ParseFloat(t.s, 64)
		if err != nil {
			panic(lskip(t.s))
		}
		return n
	case t.kind == 's':
		return t.s
	case t.kind == 'i' && t.s == "nil":
		return nil
	case t.kind == 'i' && (t.s == "true" || t.s == "false"):
		return t.s == "true"
	case t.kind == 'o' && t.s == "(":
		v := p.expr(0, run)
		p.want(")")
		return v
	case t.kind != 'i':
		panic(lskip(t.s))
	}
	name := t.s
	for p.take(".") {
		name += "." + p.peek().s
		p.i++
	}
	if p.take("[") {
		ix := p.expr(0, run)
		p.want("]")
		var l []string
		switch name {
		case "KEYS":
			l = p.keys
		case "ARGV":
			l = p.args
		default:
			panic(lskip("index of " + name))
		}
		if !run {
			return nil
		}
		if n, ok := ix.(float64); ok && n >= 1 && int(n) <= len(l) && n == math.Floor(n) {
			return l[int(n)-1]
		}
		return nil
	}
	if p.take("(") {
		var a []interface{}
		for !p.is(")") {
			a = append(a, p.expr(0, run))
			if !p.take(",") {
				break
			}
		}
		p.want(")")
		if !run {
			return nil
		}
		return p.call(name, a)
	}
	for i := len(p.env) - 1; i >= 0; i-- {
		if v, ok := p.env[i][name]; ok {
			return v
		}
	}
	if run {
		panic(lskip("name " + name))
	}
	return nil
}

func (p *lrun) call(name string, a []interface{}) interface{} {
	at := func(i int) interface{} {
		if i < len(a) {
			return a[i]
		}
		return nil
	}
	switch name {
	case "tonumber":
		if s, ok := at(0).(string); ok {
			n, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
			if err != nil {
				return nil
			}
			return n
		}
		return at(0)
	case "tostring":
		switch w := at(0).(type) {
		case nil:
			return "nil"
		case bool:
			return fmt.Sprint(w)
		}
		return lstr(at(0))
	case "math.abs":
		return math.Abs(lnum(at(0)))
	case "math.floor":
		return math.Floor(lnum(at(0)))
	case "math.ceil":
		return math.Ceil(lnum(at(0)))
	case "string.sub":
		s := lstr(at(0))
		i, j := int(lnum(at(1))), -1
		if len(a) > 2 {
			j = int(lnum(a[2]))
		}
		if i < 0 {
			i += len(s) + 1
		}
		if j < 0 {
			j += len(s) + 1
		}
		if i < 1 {
			i = 1
		}
		if j > len(s) {
			j = len(s)
		}
		if i > j {
			return ""
		}
		return s[i-1 : j]
	case "string.len":
		return float64(len(lstr(at(0))))
	case "redis.call", "redis.pcall":
		if name == "redis.pcall" {
			panic(lskip(name))
		}
		var ss []string
		for _, v := range a {
			switch w := v.(type) {
			case string:
				ss = append(ss, w)
			case float64:
				ss = append(ss, cfmt(w, 17))
			default:
				panic(lerr{errors.New("ERR Lua redis lib command arguments must be strings or integers")})
			}
		}
		return p.f.command(ss)
	}
	panic(lskip("function " + name))
}

// rint reads an integer as Redis does: no sign for zero, no spaces, no leading zeros.
func rint(s string) int64 {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || n.String() != s || !n.IsInt64() {
		panic(lerr{errors.New("ERR value is not an integer or out of range")})
	}
	return n.Int64()
}

func (f *fredis) command(a []string) interface{} {
	if len(a) < 2 {
		panic(lerr{errors.New("ERR wrong number of arguments")})
	}
	for len(a) < 4 {
		a = append(a, "")
	}
	k := a[1]
	e := f.db[k]
	b2n := func(b bool) interface{} {
		if b {
			return 1.0
		}
		return 0.0
	}
	hash := func() map[string]string {
		if e == nil {
			e = &rval{hash: map[string]string{}}
			f.db[k] = e
		}
		if e.hash == nil {
			panic(lerr{errors.New("WRONGTYPE Operation against a key holding the wrong kind of value")})
		}
		return e.hash
	}
	switch strings.ToUpper(a[0]) {
	case "EXISTS":
		return b2n(e != nil)
	case "GET":
		if e == nil {
			return false
		}
		if e.hash != nil {
			panic(lerr{errors.New("WRONGTYPE")})
		}
		return e.str
	case "SETNX":
		if e != nil {
			return 0.0
		}
		f.db[k] = &rval{str: a[2]}
		return 1.0
	case "SETEX":
		n := rint(a[2])
		if n <= 0 {
			panic(lerr{errors.New("ERR invalid expire time")})
		}
		f.db[k] = &rval{str: a[3], ttl: n}
		return "OK"
	case "SET":
		ttl, nx, xx, keep := int64(0), false, false, false
		for i := 3; i < len(a) && a[i] != ""; i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "EX":
				i++
				if ttl = rint(a[i]); ttl <= 0 {
					panic(lerr{errors.New("ERR invalid expire time")})
				}
			case "PX":
				i++
				if ttl = rint(a[i]); ttl <= 0 {
					panic(lerr{errors.New("ERR invalid expire time")})
				}
				ttl = (ttl + 999) / 1000
			default:
				panic(lerr{errors.New("ERR syntax error")})
			}
		}
		if nx && e != nil || xx && e == nil {
			return false
		}
		if keep && e != nil {
			ttl = e.ttl
		}
		f.db[k] = &rval{str: a[2], ttl: ttl}
		return "OK"
	case "EXPIRE", "PEXPIRE":
		n := rint(a[2])
		if strings.ToUpper(a[0]) == "PEXPIRE" {
			n = (n + 999) / 1000
		}
		if e == nil {
			return 0.0
		}
		if n <= 0 {
			delete(f.db, k)
		} else {
			e.ttl = n
		}
		return 1.0
	case "TTL":
		switch {
		case e == nil:
			return -2.0
		case e.ttl == 0:
			return -1.0
		}
		return float64(e.ttl)
	case "DEL":
		delete(f.db, k)
		return b2n(e != nil)
	case "HGET":
		if e == nil {
			return false
		}
		if s, ok := hash()[a[2]]; ok {
			return s
		}
		return false
	case "HSET":
		h := hash()
		_, ok := h[a[2]]
		h[a[2]] = a[3]
		return b2n(!ok)
	case "HINCRBY", "INCRBY", "DECRBY", "INCR":
		d, old := int64(1), "0"
		switch strings.ToUpper(a[0]) {
		case "HINCRBY":
			d = rint(a[3])
			if e != nil && e.hash == nil {
				hash()
			}
			if e != nil && e.hash[a[2]] != "" {
				old = e.hash[a[2]]
			}
		case "INCRBY":
			d = rint(a[2])
		case "DECRBY":
			d = -rint(a[2])
		}
		if strings.ToUpper(a[0]) != "HINCRBY" && e != nil {
			if e.hash != nil {
				panic(lerr{errors.New("WRONGTYPE")})
			}
			old = e.str
		}
		n := rint(old)
		if d > 0 && n > math.MaxInt64-d || d < 0 && n < math.MinInt64-d {
			panic(lerr{errors.New("ERR increment or decrement would overflow")})
		}
		v := strconv.FormatInt(n+d, 10)
		if strings.ToUpper(a[0]) == "HINCRBY" {
			hash()[a[2]] = v
		} else if e == nil {
			f.db[k] = &rval{str: v}
		} else {
			e.str = v
		}
		return float64(n + d)
	}
	panic(lskip("command " + a[0]))
}

// ---- P02

// rcase runs batches against f through the given client and compares with the plain meaning.
func rcase(v *vf, f *fredis, cl RedisEvaler, faults bool) {
	ttls := []time.Duration{24 * time.Hour, time.Second, 1500 * time.Millisecond, 999 * time.Millisecond, time.Nanosecond, time.Minute, 0, -time.Second, 61*time.Second + 1, math.MaxInt64}
	ttl := ttls[v.intn(len(ttls))]
	p := NewRedisPersister(cl, ttl)
	v.did("marker lifetime %v", ttl)
	if ttl <= 0 {
		ttl = 24 * time.Hour
	}
	ctr := map[string]*big.Int{} // per key
	odd := map[string]bool{}     // keys whose counter holds no number
	for i := v.intn(4); i > 0; i-- {
		k := v.key()
		n := v.num(0)
		if v.intn(5) == 0 {
			f.db["counter:"+k] = &rval{str: "x"}
			odd[k] = true
			delete(ctr, k)
			v.did("stored %q is no counter", k)
			continue
		}
		delete(odd, k)
		f.db["counter:"+k] = &rval{hash: map[string]string{"scalar": fmt.Sprint(n)}}
		ctr[k] = big.NewInt(n)
		v.did("stored %q %d", k, n)
	}
	done := map[[2]string]bool{}
	var last []CommitEntry
	for r := 0; r < 4; r++ {
		es := last
		if last == nil || v.intn(3) > 0 {
			es = v.entries(9, v.intn(4) == 0)
			for i := range es { // ids that the separator could confuse
				if v.intn(6) == 0 {
					es[i].CommitID = []string{"b", "a:b", "b:c", "%3A", ":", "%", "%25", "b%3Ac"}[v.intn(8)]
					v.did("commit %d has id %q", i, es[i].CommitID)
				}
			}
		} else {
			v.did("the same batch again")
		}
		last = es
		in := clone(es)
		f.calls, f.reached, f.failAt, f.failed, f.late, f.err = 0, nil, -1, false, false, v.anErr()
		if faults && v.intn(3) == 0 {
			f.failAt, f.how = v.intn(len(es)+1), v.intn(2)
			v.did("call %d fails (%v, script ran %v)", f.failAt, f.err, f.how == 1)
		}
		strs := map[string]int64{}
		for k, e := range f.db {
			if e.hash == nil {
				strs[k] = e.ttl
			}
		}
		ctx := context.Background()
		var err error
		v.safe("CommitBatch", func() { err = p.CommitBatch(ctx, es) })
		if f.skip != "" {
			return
		}
		if f.late {
			v.fail("a commit was sent after a failed one")
		}
		if f.failed && err == nil {
			v.fail("no error although a call failed")
		}
		// the plain meaning, commit by commit
		ran := 0
		reason := false
		for i, e := range in {
			if e.CommitID == "" {
				if err == nil {
					v.fail("no error for the missing id of commit %d", i)
				}
				reason = true
				break
			}
			if i == f.failAt && f.how == 0 {
				reason = true
				break
			}
			if !done[[2]string{e.Key, e.CommitID}] {
				n := new(big.Int)
				if ctr[e.Key] != nil {
					n.Set(ctr[e.Key])
				}
				n.Sub(n, big.NewInt(e.Vector))
				if odd[e.Key] || !n.IsInt64() || e.Vector == math.MinInt64 {
					reason = true
					break
				}
				ctr[e.Key] = n
				done[[2]string{e.Key, e.CommitID}] = true
			}
			ran++
			if i == f.failAt {
				reason = true
				break
			}
		}
		if len(f.reached) != ran {
			v.fail("%d scripts ran, want %d (error %v)", len(f.reached), ran, err)
		}
		if (err != nil) != reason {
			v.fail("error %v, want one: %v", err, reason)
		}
		for k, n := range ctr {
			e := f.db["counter:"+k]
			if e == nil || e.hash == nil || e.hash["scalar"] != n.String() {
				v.fail("the counter of %q holds %v, want %v (error %v)", k, e, n, err)
			}
			if e.ttl != 0 {
				v.fail("the counter of %q expires in %d s", k, e.ttl)
			}
		}
		for k, e := range f.db {
			if e.hash != nil {
				if ctr[strings.TrimPrefix(k, "counter:")] == nil && e.hash["scalar"] != "0" {
					v.fail("a counter %q appeared", k)
				}
				continue
			}
			if _, ok := strs[k]; ok {
				if strs[k] > 0 && e.ttl == 0 {
					v.fail("the marker %q lost its expiry", k)
				}
				continue
			}
			if e.ttl <= 0 || e.ttl < int64(ttl/time.Second) || e.ttl > int64((ttl-1)/time.Second)+1 {
				v.fail("the marker %q expires in %d s, configured %v", k, e.ttl, ttl)
			}
		}
	}
}

func TestVerif_P02_batches(t *testing.T) {
	v := verif(t, "P02", 0.8)
	defer quiet()()
	for v.more() {
		f := &fredis{db: map[string]*rval{}, failAt: -1}
		rcase(v, f, f, true)
		if f.skip != "" {
			fmt.Fprintf(vfOut, "\nthe script uses %s, which this driver does not know\n", f.skip)
			return
		}
	}
	v.covered("four batches run by an in-memory Redis, with repeated ids and batches, any vectors and lifetimes, and a failure before or after any script")
}

// The real client against a server on the loopback interface.
func TestVerif_P02_client(t *testing.T) {
	v := verif(t, "P02", 0.2)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	defer l.Close()
	var mu sync.Mutex
	var f *fredis
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go serveRESP(c, func(script string, keys, args []string) (interface{}, error) {
				mu.Lock()
				g := f
				mu.Unlock()
				return g.eval(script, keys, args)
			})
		}
	}()
	cl := NewGoRedisEvaler(l.Addr().String())
	for v.more() {
		g := &fredis{db: map[string]*rval{}, failAt: -1}
		mu.Lock()
		f = g
		mu.Unlock()
		rcase(v, g, cl, false)
		if g.skip != "" {
			return
		}
	}
	v.covered("four batches sent by the real client to a server on the loopback interface")
}

func serveRESP(c net.Conn, eval func(string, []string, []string) (interface{}, error)) {
	defer c.Close()
	r := bufio.NewReader(c)
	line := func() (string, error) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		s, err := line()
		if err != nil || !strings.HasPrefix(s, "*") {
			return
		}
		n, _ := strconv.Atoi(s[1:])
		var a []string
		for i := 0; i < n; i++ {
			h, err := line()
			if err != nil || !strings.HasPrefix(h, "$") {
				return
			}
			m, _ := strconv.Atoi(h[1:])
			b := make([]byte, m+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			a = append(a, string(b[:m]))
		}
		switch cmd := strings.ToUpper(a[0]); {
		case cmd == "EVAL" && len(a) > 2:
			k, _ := strconv.Atoi(a[2])
			if k < 0 || 3+k > len(a) {
				fmt.Fprint(c, "-ERR Number of keys can't be greater than number of args\r\n")
				continue
			}
			res, err := eval(a[1], a[3:3+k], a[3+k:])
			switch w := res.(type) {
			case float64:
				fmt.Fprintf(c, ":%d\r\n", int64(w))
			case string:
				fmt.Fprintf(c, "$%d\r\n%s\r\n", len(w), w)
			default:
				if err != nil {
					fmt.Fprintf(c, "-%s\r\n", strings.ReplaceAll(err.Error(), "\n", " "))
				} else {
					fmt.Fprint(c, "$-1\r\n")
				}
			}
		case cmd == "PING":
			fmt.Fprint(c, "+PONG\r\n")
		case cmd == "CLIENT":
			fmt.Fprint(c, "+OK\r\n")
		default:
			fmt.Fprintf(c, "-ERR unknown command '%s'\r\n", a[0])
		}
	}
}
