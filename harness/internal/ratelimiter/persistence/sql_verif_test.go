package persistence

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"
)

// A small relational database behind database/sql: the documented schema, unique keys, real
// transactions, and a failure of any operation.

type fcRow struct {
	scalar int64
	token  *int64
}
type fdb struct {
	mu      sync.Mutex
	cnt     map[string]fcRow
	app     map[string][2]interface{} // id -> key, vc
	undo    func()
	aborted bool
	open    bool
	ops     int
	failAt  int
	failed  bool
	bad     string
}

var errDown = errors.New("database is down")

func (d *fdb) snapshot() (map[string]fcRow, map[string][2]interface{}) {
	c, a := map[string]fcRow{}, map[string][2]interface{}{}
	for k, v := range d.cnt {
		c[k] = v
	}
	for k, v := range d.app {
		a[k] = v
	}
	return c, a
}
func (d *fdb) op() error {
	d.ops++
	if d.ops-1 == d.failAt {
		d.failed = true
		return errDown
	}
	return nil
}

type fdriver struct{}

var (
	fdbs   sync.Map
	fdbSeq int
)

func init() { sql.Register("verifpg", fdriver{}) }

func (fdriver) Open(name string) (driver.Conn, error) {
	d, ok := fdbs.Load(name)
	if !ok {
		return nil, errors.New("no database")
	}
	return &fconn{d.(*fdb)}, nil
}

type fconn struct{ d *fdb }

func (c *fconn) Prepare(q string) (driver.Stmt, error) { return &fstmt{c, q}, nil }
func (c *fconn) Close() error                          { return nil }
func (c *fconn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *fconn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	d := c.d
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.op(); err != nil {
		return nil, err
	}
	if d.open {
		return nil, errors.New("a transaction is open already")
	}
	cs, as := d.snapshot()
	d.open, d.aborted = true, false
	d.undo = func() { d.cnt, d.app = cs, as }
	return &ftx{d}, nil
}
func (c *fconn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	var vs []interface{}
	for _, a := range args {
		vs = append(vs, a.Value)
	}
	return c.d.exec(q, vs)
}

type fstmt struct {
	c *fconn
	q string
}

func (s *fstmt) Close() error  { return nil }
func (s *fstmt) NumInput() int { return -1 }
func (s *fstmt) Exec(args []driver.Value) (driver.Result, error) {
	var vs []interface{}
	for _, a := range args {
		vs = append(vs, a)
	}
	return s.c.d.exec(s.q, vs)
}
func (s *fstmt) Query(args []driver.Value) (driver.Rows, error) { return nil, errors.New("no queries") }

type ftx struct{ d *fdb }

func (t *ftx) Commit() error {
	d := t.d
	d.mu.Lock()
	defer d.mu.Unlock()
	err := d.op()
	if err == nil && d.aborted {
		err = errors.New("the transaction is aborted")
	}
	if err != nil {
		d.undo()
	}
	d.open = false
	return err
}
func (t *ftx) Rollback() error {
	d := t.d
	d.mu.Lock()
	defer d.mu.Unlock()
	d.undo()
	d.open = false
	return nil
}

type fres struct {
	d *fdb
	n int64
}

func (r fres) LastInsertId() (int64, error) { return 0, errors.New("not supported") }
func (r fres) RowsAffected() (int64, error) { return r.n, nil }

func (d *fdb) exec(q string, args []interface{}) (res driver.Result, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.aborted {
		return nil, errors.New("current transaction is aborted")
	}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
			if d.bad == "" && !strings.HasPrefix(err.Error(), "SQLSTATE") {
				d.bad = fmt.Sprintf("%v in %q", e, q)
			}
		}
		if err != nil && d.open {
			d.aborted = true
		}
	}()
	if err := d.op(); err != nil {
		return nil, err
	}
	r := &frun{d: d, args: args, toks: flex(q)}
	return fres{d, r.statement()}, nil
}

type frun struct {
	d    *fdb
	toks []string
	i    int
	args []interface{}
	row  map[string]interface{}
}

func flex(q string) []string {
	var out []string
	for i := 0; i < len(q); {
		ch := rune(q[i])
		switch {
		case unicode.IsSpace(ch):
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case unicode.IsLetter(ch) || ch == '_' || ch == '$' || unicode.IsDigit(ch):
			j := i + 1
			for j < len(q) && (unicode.IsLetter(rune(q[j])) || unicode.IsDigit(rune(q[j])) || q[j] == '_') {
				j++
			}
			out = append(out, strings.ToLower(q[i:j]))
			i = j
		case ch == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				panic("unterminated name")
			}
			out = append(out, q[i+1:i+1+j])
			i += j + 2
		default:
			n := 1
			for _, o := range []string{"<>", "!=", "<=", ">=", "::"} {
				if strings.HasPrefix(q[i:], o) {
					n = 2
				}
			}
			out = append(out, q[i:i+n])
			i += n
		}
	}
	for len(out) > 0 && out[len(out)-1] == ";" {
		out = out[:len(out)-1]
	}
	return out
}
func (r *frun) peek() string {
	if r.i < len(r.toks) {
		return r.toks[r.i]
	}
	return ""
}
func (r *frun) take(s string) bool {
	if r.peek() == s {
		r.i++
		return true
	}
	return false
}
func (r *frun) want(ss ...string) {
	for _, s := range ss {
		if !r.take(s) {
			panic(fmt.Sprintf("%q where %q is expected", r.peek(), s))
		}
	}
}
func (r *frun) next() string { s := r.peek(); r.i++; return s }

func (r *frun) statement() int64 {
	d := r.d
	switch {
	case r.take("insert"):
		r.want("into")
		tbl := r.next()
		r.want("(")
		var cols []string
		for {
			cols = append(cols, r.next())
			if !r.take(",") {
				break
			}
		}
		r.want(")", "values")
		vs := r.list()
		nothing := false
		if r.take("on") {
			r.want("conflict")
			if r.take("(") {
				r.next()
				r.want(")")
			}
			r.want("do", "nothing")
			nothing = true
		}
		if r.i != len(r.toks) || len(vs) != len(cols) {
			panic("malformed insert")
		}
		val := map[string]interface{}{}
		for i, c := range cols {
			val[c] = vs[i]
		}
		text := func(c string) string {
			s, ok := val[c].(string)
			if !ok {
				panic("SQLSTATE: " + c + " is null or not text")
			}
			return s
		}
		num := func(c string) int64 {
			n, ok := val[c].(int64)
			if !ok {
				panic("SQLSTATE: " + c + " is null or not a number")
			}
			return n
		}
		dup := func(yes bool) bool {
			if yes && !nothing {
				panic("SQLSTATE 23505: duplicate key")
			}
			return yes
		}
		switch tbl {
		case "counters":
			row := fcRow{scalar: num("scalar")}
			if t, ok := val["last_token"].(int64); ok {
				row.token = &t
			}
			k := text("key")
			if _, ok := d.cnt[k]; dup(ok) {
				return 0
			}
			d.cnt[k] = row
			return 1
		case "applied_commits":
			id, k, vc := text("commit_id"), text("key"), num("vc")
			if _, ok := d.app[id]; dup(ok) {
				return 0
			}
			d.app[id] = [2]interface{}{k, vc}
			return 1
		}
		panic("no table " + tbl)
	case r.take("update"):
		if t := r.next(); t != "counters" {
			panic("update of " + t)
		}
		if r.peek() != "set" {
			r.take("as")
			r.next()
		}
		r.want("set")
		start := r.i
		var n int64
		out := map[string]fcRow{}
		end := start
		keys := []string{}
		for k := range d.cnt {
			keys = append(keys, k)
		}
		keys = append(keys, "\x00none")
		for _, k := range keys {
			row, ok := d.cnt[k]
			r.i = start
			r.row = map[string]interface{}{"key": k, "scalar": row.scalar, "last_token": nil}
			if row.token != nil {
				r.row["last_token"] = *row.token
			}
			set := map[string]interface{}{}
			for {
				c := r.next()
				r.want("=")
				set[c] = r.expr()
				if !r.take(",") {
					break
				}
			}
			hit := true
			if r.take("where") {
				b, _ := r.expr().(bool)
				hit = b
			}
			end = r.i
			if !hit || !ok {
				continue
			}
			n++
			for c, v := range set {
				switch c {
				case "scalar":
					x, ok := v.(int64)
					if !ok {
						panic("SQLSTATE: scalar is null")
					}
					row.scalar = x
				case "last_token":
					row.token = nil
					if t, ok := v.(int64); ok {
						row.token = &t
					}
				default:
					panic("update of " + c)
				}
			}
			out[k] = row
		}
		if end != len(r.toks) {
			panic("malformed update")
		}
		for k, row := range out {
			d.cnt[k] = row
		}
		return n
	}
	panic("unknown statement")
}

func (r *frun) list() []interface{} {
	r.want("(")
	var vs []interface{}
	for {
		vs = append(vs, r.expr())
		if !r.take(",") {
			break
		}
	}
	r.want(")")
	return vs
}
func (r *frun) expr() interface{} {
	a := r.and()
	for r.take("or") {
		b := r.and()
		if a == true || b == true {
			a = true
		} else if a == nil || b == nil {
			a = nil
		} else {
			a = false
		}
	}
	return a
}
func (r *frun) and() interface{} {
	a := r.not()
	for r.take("and") {
		b := r.not()
		if a == false || b == false {
			a = false
		} else if a == nil || b == nil {
			a = nil
		} else {
			a = true
		}
	}
	return a
}
func (r *frun) not() interface{} {
	if r.take("not") {
		a := r.not()
		if a == nil {
			return nil
		}
		return !a.(bool)
	}
	a := r.add()
	switch op := r.peek(); op {
	case "is":
		r.i++
		n := r.take("not")
		r.want("null")
		return (a == nil) != n
	case "=", "<>", "!=", "<", ">", "<=", ">=":
		r.i++
		b := r.add()
		if a == nil || b == nil {
			return nil
		}
		var c int
		switch x := a.(type) {
		case int64:
			y := b.(int64)
			if x < y {
				c = -1
			} else if x > y {
				c = 1
			}
		case string:
			c = strings.Compare(x, b.(string))
		default:
			panic("comparison")
		}
		switch op {
		case "=":
			return c == 0
		case "<":
			return c < 0
		case ">":
			return c > 0
		case "<=":
			return c <= 0
		case ">=":
			return c >= 0
		}
		return c != 0
	}
	return a
}
func (r *frun) add() interface{} {
	a := r.prim()
	for r.peek() == "+" || r.peek() == "-" || r.peek() == "*" {
		op := r.next()
		b := r.prim()
		x, ok := a.(int64)
		y, ok2 := b.(int64)
		if !ok || !ok2 {
			a = nil
			continue
		}
		switch op {
		case "+":
			a = x + y
		case "-":
			a = x - y
		default:
			a = x * y
		}
	}
	return a
}
func (r *frun) prim() interface{} {
	v := r.prim0()
	for r.take("::") {
		r.next()
	}
	return v
}
func (r *frun) prim0() interface{} {
	t := r.next()
	switch {
	case t == "":
		panic("the statement ends early")
	case t == "(":
		v := r.expr()
		r.want(")")
		return v
	case t == "-":
		v, ok := r.prim().(int64)
		if !ok {
			return nil
		}
		return -v
	case t == "null":
		return nil
	case t[0] == '$':
		n, _ := strconv.Atoi(t[1:])
		if n < 1 || n > len(r.args) {
			panic("no argument for " + t)
		}
		return r.args[n-1]
	case unicode.IsDigit(rune(t[0])):
		n, _ := strconv.ParseInt(t, 10, 64)
		return n
	case t == "greatest" || t == "least" || t == "coalesce":
		var best interface{}
		for _, v := range r.list() {
			switch {
			case v == nil:
			case best == nil:
				best = v
			case t == "greatest" && v.(int64) > best.(int64), t == "least" && v.(int64) < best.(int64):
				best = v
			}
		}
		return best
	case t == "exists":
		r.want("(", "select")
		r.next()
		r.want("from", "applied_commits")
		if r.peek() != "where" {
			r.take("as")
			r.next()
		}
		r.want("where")
		start, row := r.i, r.row
		found := false
		for id, a := range r.d.app {
			r.i = start
			r.row = map[string]interface{}{"commit_id": id, "key": a[0], "vc": a[1]}
			if r.expr() == true {
				found = true
			}
		}
		r.i = start
		r.row = map[string]interface{}{"commit_id": "", "key": "", "vc": int64(0)}
		r.expr()
		r.row = row
		r.want(")")
		return found
	}
	if r.take(".") {
		t = r.next()
	}
	v, ok := r.row[t]
	if !ok {
		panic("no column " + t)
	}
	return v
}

func newFDB() (*fdb, *sql.DB, func()) {
	fdbSeq++
	name := fmt.Sprint("db", fdbSeq)
	d := &fdb{cnt: map[string]fcRow{}, app: map[string][2]interface{}{}, failAt: -1}
	fdbs.Store(name, d)
	db, err := sql.Open("verifpg", name)
	if err != nil {
		panic(err)
	}
	return d, db, func() { db.Close(); fdbs.Delete(name) }
}

func TestVerif_P01_batches(t *testing.T) {
	v := verif(t, "P01", 1)
	for v.more() {
		d, db, done := newFDB()
		for i := v.intn(6); i > 0; i-- {
			row := fcRow{scalar: v.num(1 << 40)}
			if v.coin() {
				n := v.num(0)
				row.token = &n
			}
			k := v.key()
			d.cnt[k] = row
			v.did("stored %q scalar %d token %s", k, row.scalar, tokStr(row.token))
		}
		mk := v.coin()
		p := NewPostgresPersister(db, mk)
		v.did("create missing keys %v", mk)
		var last []CommitEntry
		for r := 0; r < 4; r++ {
			es := last
			if last == nil || v.intn(3) > 0 {
				es = v.entries(9, v.intn(4) == 0)
			} else {
				v.did("the same batch again")
			}
			last = es
			in := clone(es)
			d.ops, d.failAt, d.failed = 0, -1, false
			if v.intn(3) == 0 {
				d.failAt = v.intn(4 + 3*len(es))
				v.did("operation %d fails", d.failAt)
			}
			cnt, app := d.snapshot()
			ctx := context.Context(nil)
			cancel := func() {}
			switch v.intn(3) {
			case 0:
				ctx = context.Background()
			case 1:
				ctx, cancel = context.WithTimeout(context.Background(), time.Minute)
			}
			var err error
			v.safe("CommitBatch", func() { err = p.CommitBatch(ctx, es) })
			cancel()
			eventually(2*time.Second, func() bool { d.mu.Lock(); defer d.mu.Unlock(); return !d.open })
			d.mu.Lock()
			if d.open {
				v.fail("a transaction is left open (error %v)", err)
			}
			if d.bad != "" {
				v.fail("the database cannot run a statement: %s", d.bad)
			}
			missing := false
			want, wapp := map[string]fcRow{}, map[string][2]interface{}{}
			for k, r := range cnt {
				want[k] = r
			}
			for k, r := range app {
				wapp[k] = r
			}
			for _, e := range in {
				missing = missing || e.CommitID == ""
				if _, ok := want[e.Key]; !ok && mk {
					want[e.Key] = fcRow{}
				}
			}
			for _, e := range in {
				if _, ok := wapp[e.CommitID]; ok {
					continue
				}
				wapp[e.CommitID] = [2]interface{}{e.Key, e.Vector}
				if row, ok := want[e.Key]; ok {
					row.scalar -= e.Vector
					want[e.Key] = row
				}
			}
			if err == nil && (d.failed || missing) {
				v.fail("no error, although a statement failed (%v) or an id is missing (%v)", d.failed, missing)
			}
			if err != nil && !d.failed && !missing {
				v.fail("error %v without a reason", err)
			}
			if err != nil {
				want, wapp = cnt, app
			}
			if !reflect.DeepEqual(wapp, d.app) {
				v.fail("recorded ids %v, want %v (error %v)", d.app, wapp, err)
			}
			if len(want) != len(d.cnt) {
				v.fail("stored keys %v, want %v (error %v)", d.cnt, want, err)
			}
			for k, w := range want {
				g, ok := d.cnt[k]
				if !ok || g.scalar != w.scalar {
					v.fail("key %q has scalar %d, want %d (error %v)", k, g.scalar, w.scalar, err)
				}
				old := cnt[k].token
				switch {
				case err != nil && tokStr(old) != tokStr(g.token):
					v.fail("key %q has token %s after an error, before %s", k, tokStr(g.token), tokStr(old))
				case old != nil && (g.token == nil || *g.token < *old):
					v.fail("key %q has token %s, before %s", k, tokStr(g.token), tokStr(old))
				case tokStr(old) != tokStr(g.token):
					from := false
					for _, e := range in {
						_, was := app[e.CommitID]
						from = from || e.Key == k && tokStr(e.FencingToken) == tokStr(g.token) && !was
					}
					if !from {
						v.fail("key %q has token %s from no new commit", k, tokStr(g.token))
					}
				}
			}
			d.mu.Unlock()
		}
		done()
	}
	v.covered("four batches on one database, with repeated ids and batches, tokens, missing ids, both key modes and a failure of any operation")
}
