package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Assumed contract of database/sql over the documented schema: each statement is read by the
// parser below and interpreted on one arbitrary row; what it does is reported to the contract as
// an event (sql.marker, sql.create, sql.apply, sql.token, sql.commit, sql.outside), whose at
// clauses say what must hold there. Every statement, and the commit, may fail.
//
//	counters(key primary key, scalar not null, last_token)
//	applied_commits(commit_id primary key, key not null, vc not null, ts default now())
//
// Ghosts: $tx 0 none, 1 open, 2 ended; $committed; $failed statements; $mark markers written;
// $ins the last one was new; $owed its update has not been seen.

type sqlTok struct {
	kind byte // i ident, n number, p parameter, s string, o operator
	s    string
}

func sqlLex(q string) ([]sqlTok, error) {
	var out []sqlTok
	for i := 0; i < len(q); {
		ch := rune(q[i])
		switch {
		case unicode.IsSpace(ch):
			i++
		case ch == '-' && strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case unicode.IsLetter(ch) || ch == '_' || ch == '"':
			j := i
			if ch == '"' {
				j++
				for j < len(q) && q[j] != '"' {
					j++
				}
				if j >= len(q) {
					return nil, fmt.Errorf("unterminated name")
				}
				out = append(out, sqlTok{'i', q[i+1 : j]})
				i = j + 1
				break
			}
			for j < len(q) && (unicode.IsLetter(rune(q[j])) || unicode.IsDigit(rune(q[j])) || q[j] == '_') {
				j++
			}
			out = append(out, sqlTok{'i', strings.ToLower(q[i:j])})
			i = j
		case unicode.IsDigit(ch):
			j := i
			for j < len(q) && unicode.IsDigit(rune(q[j])) {
				j++
			}
			out = append(out, sqlTok{'n', q[i:j]})
			i = j
		case ch == '$':
			j := i + 1
			for j < len(q) && unicode.IsDigit(rune(q[j])) {
				j++
			}
			out = append(out, sqlTok{'p', q[i+1 : j]})
			i = j
		default:
			for _, o := range []string{"<>", "!=", "<=", ">=", "::"} {
				if strings.HasPrefix(q[i:], o) {
					out = append(out, sqlTok{'o', o})
					i += 2
					goto next
				}
			}
			if !strings.ContainsRune("()=<>+-*,;.", ch) {
				return nil, fmt.Errorf("character %q", ch)
			}
			out = append(out, sqlTok{'o', string(ch)})
			i++
		}
	next:
	}
	for len(out) > 0 && out[len(out)-1].s == ";" {
		out = out[:len(out)-1]
	}
	return out, nil
}

// sqlVal: a value that may be null, or a three-valued condition.
type sqlVal struct {
	null *Term
	v    *Term
}

type sqlRun struct {
	x    *Exec
	st   *State
	toks []sqlTok
	i    int
	args []sqlVal
	row  map[string]sqlVal
	tbl  string
	id   *Term // the marker known to be stored
}

func (r *sqlRun) bad(f string, a ...interface{}) { r.x.unsupported("SQL: "+f, a...) }
func (r *sqlRun) peek() string {
	if r.i < len(r.toks) && r.toks[r.i].kind != 's' {
		return r.toks[r.i].s
	}
	return ""
}
func (r *sqlRun) take(s string) bool {
	if r.peek() == s {
		r.i++
		return true
	}
	return false
}
func (r *sqlRun) want(ss ...string) {
	for _, s := range ss {
		if !r.take(s) {
			r.bad("%q where %q is expected", r.peek(), s)
		}
	}
}
func (r *sqlRun) name() string {
	if r.i < len(r.toks) && r.toks[r.i].kind == 'i' {
		r.i++
		s := r.toks[r.i-1].s
		if r.take(".") { // table.column
			return r.name()
		}
		return s
	}
	r.bad("%q where a name is expected", r.peek())
	return ""
}

func (r *sqlRun) boolean(b *Term) sqlVal { return sqlVal{r.x.c.Bool(false), b} }

func (r *sqlRun) expr() sqlVal { // OR
	c := r.x.c
	a := r.and()
	for r.take("or") {
		b := r.and()
		t := c.Or(c.And(c.Not(a.null), a.v), c.And(c.Not(b.null), b.v))
		a = sqlVal{c.And(c.Not(t), c.Or(a.null, b.null)), t}
	}
	return a
}
func (r *sqlRun) and() sqlVal {
	c := r.x.c
	a := r.not()
	for r.take("and") {
		b := r.not()
		f := c.Or(c.And(c.Not(a.null), c.Not(a.v)), c.And(c.Not(b.null), c.Not(b.v)))
		a = sqlVal{c.And(c.Not(f), c.Or(a.null, b.null)), c.And(a.v, b.v)}
	}
	return a
}
func (r *sqlRun) not() sqlVal {
	if r.take("not") {
		a := r.not()
		return sqlVal{a.null, r.x.c.Not(a.v)}
	}
	return r.cmp()
}
func (r *sqlRun) cmp() sqlVal {
	c := r.x.c
	a := r.add()
	op := r.peek()
	switch op {
	case "is":
		r.i++
		neg := r.take("not")
		r.want("null")
		if neg {
			return r.boolean(c.Not(a.null))
		}
		return r.boolean(a.null)
	case "=", "<>", "!=", "<", ">", "<=", ">=":
		r.i++
		b := r.add()
		var t *Term
		switch op {
		case "=":
			t = c.Eq(a.v, b.v)
		case "<>", "!=":
			t = c.Ne(a.v, b.v)
		case "<":
			t = c.Lt(a.v, b.v)
		case ">":
			t = c.Lt(b.v, a.v)
		case "<=":
			t = c.Le(a.v, b.v)
		default:
			t = c.Ge(a.v, b.v)
		}
		return sqlVal{c.Or(a.null, b.null), t}
	}
	return a
}
func (r *sqlRun) add() sqlVal {
	c := r.x.c
	a := r.mul()
	for {
		switch {
		case r.take("+"):
			b := r.mul()
			a = sqlVal{c.Or(a.null, b.null), c.Add(a.v, b.v)}
		case r.take("-"):
			b := r.mul()
			a = sqlVal{c.Or(a.null, b.null), c.Sub(a.v, b.v)}
		default:
			return a
		}
	}
}
func (r *sqlRun) mul() sqlVal {
	c := r.x.c
	a := r.unary()
	for r.take("*") {
		b := r.unary()
		a = sqlVal{c.Or(a.null, b.null), c.Mul(a.v, b.v)}
	}
	return a
}
func (r *sqlRun) unary() sqlVal {
	if r.take("-") {
		a := r.unary()
		return sqlVal{a.null, r.x.c.Neg(a.v)}
	}
	a := r.prim()
	for r.take("::") {
		if t := r.name(); t != "bigint" && t != "int8" && t != "text" {
			r.bad("cast to %s", t)
		}
	}
	return a
}
func (r *sqlRun) list() []sqlVal {
	r.want("(")
	var vs []sqlVal
	for {
		vs = append(vs, r.expr())
		if !r.take(",") {
			break
		}
	}
	r.want(")")
	return vs
}
func (r *sqlRun) prim() sqlVal {
	c := r.x.c
	if r.i >= len(r.toks) {
		r.bad("the statement ends early")
	}
	t := r.toks[r.i]
	switch t.kind {
	case 'n':
		r.i++
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return sqlVal{c.Bool(false), c.Int(n)}
	case 'p':
		r.i++
		n, _ := strconv.Atoi(t.s)
		if n < 1 || n > len(r.args) {
			r.bad("no argument for $%d", n)
		}
		return r.args[n-1]
	case 'o':
		if t.s == "(" {
			r.i++
			v := r.expr()
			r.want(")")
			return v
		}
	case 'i':
		switch t.s {
		case "null":
			r.i++
			return sqlVal{c.Bool(true), c.Int(0)}
		case "exists":
			// only: EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = X)
			r.i++
			r.want("(", "select")
			if !r.take("1") && !r.take("*") {
				r.name()
			}
			r.want("from", "applied_commits")
			alias := ""
			if r.peek() != "where" {
				r.take("as")
				alias = r.name()
			}
			_ = alias
			r.want("where")
			save, tbl := r.row, r.tbl
			id := c.Fresh("sql.id", SInt)
			r.row, r.tbl = map[string]sqlVal{"commit_id": {c.Bool(false), id}}, "applied_commits"
			v := r.expr()
			r.row, r.tbl = save, tbl
			r.want(")")
			// a stored marker satisfies the condition if the last one does
			known := c.Bool(false)
			if r.id != nil {
				known = subst1(c, c.And(c.Not(v.null), v.v), id, r.id)
			}
			return r.boolean(c.Or(known, c.Fresh("sql.exists", SBool)))
		case "greatest", "least", "coalesce":
			r.i++
			vs := r.list()
			a := vs[0]
			for _, b := range vs[1:] {
				switch t.s {
				case "coalesce":
					a = sqlVal{c.And(a.null, b.null), c.Ite(a.null, b.v, a.v)}
				default: // nulls are ignored
					gt := c.Ge(a.v, b.v)
					if t.s == "least" {
						gt = c.Le(a.v, b.v)
					}
					a = sqlVal{c.And(a.null, b.null), c.Ite(a.null, b.v, c.Ite(b.null, a.v, c.Ite(gt, a.v, b.v)))}
				}
			}
			return a
		}
		n := r.name()
		v, ok := r.row[n]
		if !ok {
			r.bad("no column %s in %s", n, r.tbl)
		}
		return v
	}
	r.bad("%q in an expression", t.s)
	return sqlVal{}
}

func subst1(c *Ctx, t, from, to *Term) *Term {
	return c.Subst(t, from, to)
}

// event lets the contract look at what a statement does.
func (x *Exec) event(st *State, name string, a ...Val) {
	if x.hooks.call != nil {
		x.hooks.call(st, name, a, nil)
	}
}

// sqlExec interprets one statement that succeeds; it returns the number of rows affected.
func (x *Exec) sqlExec(st *State, q string, args []sqlVal) *Term {
	c := x.c
	toks, err := sqlLex(q)
	if err != nil {
		x.unsupported("SQL: %v", err)
	}
	r := &sqlRun{x: x, st: st, toks: toks, args: args}
	x.use(st)
	if id := x.rdHeap(st, "$lastid", nil, SInt); true {
		r.id = id
	}
	switch {
	case r.take("insert"):
		r.want("into")
		tbl := r.name()
		r.want("(")
		var cols []string
		for {
			cols = append(cols, r.name())
			if !r.take(",") {
				break
			}
		}
		r.want(")", "values")
		vs := r.list()
		if len(vs) != len(cols) {
			r.bad("%d values for %d columns", len(vs), len(cols))
		}
		nothing := false
		if r.take("on") {
			r.want("conflict")
			if r.take("(") {
				r.name()
				r.want(")")
			}
			r.want("do")
			r.want("nothing")
			nothing = true
		}
		if r.i != len(toks) {
			r.bad("%q after the statement", r.peek())
		}
		val := map[string]sqlVal{}
		for i, n := range cols {
			val[n] = vs[i]
		}
		need := func(ns ...string) {
			for _, n := range ns {
				v, ok := val[n]
				if !ok {
					v = sqlVal{c.Bool(true), c.Int(0)}
				}
				x.safe(st, "column "+n+" is not null", token.NoPos, c.Not(v.null))
			}
		}
		if !nothing {
			// a stored key makes the statement fail
			x.event(st, "sql.conflict")
		}
		ins := c.Fresh("sql.new", SBool)
		rows := c.Ite(ins, c.Int(1), c.Int(0))
		switch tbl {
		case "applied_commits":
			need("commit_id", "key", "vc")
			x.event(st, "sql.marker", val["commit_id"].v, val["key"].v, val["vc"].v)
			x.bump(st, "$mark")
			x.wrHeap(st, "$lastid", nil, SInt, val["commit_id"].v)
			x.wrHeap(st, "$ins", nil, SInt, rows)
			x.wrHeap(st, "$owed", nil, SInt, rows)
		case "counters":
			need("key", "scalar")
			tk, ok := val["last_token"]
			if !ok {
				tk.null, tk.v = c.Bool(true), c.Int(0)
			}
			x.event(st, "sql.create", val["key"].v, val["scalar"].v, c.Ite(tk.null, c.Int(0), c.Int(1)))
			x.bumpAt(st, "$created", val["key"].v)
		default:
			r.bad("table %s", tbl)
		}
		return rows
	case r.take("update"):
		r.tbl = r.name()
		if r.tbl != "counters" {
			r.bad("update of %s", r.tbl)
		}
		if r.peek() != "set" {
			r.take("as")
			r.name()
		}
		r.want("set")
		// one arbitrary stored row
		s, k := c.Fresh("row.scalar", SInt), c.Fresh("row.key", SInt)
		tn, tv := c.Fresh("row.notoken", SBool), c.Fresh("row.token", SInt)
		r.row = map[string]sqlVal{"key": {c.Bool(false), k}, "scalar": {c.Bool(false), s}, "last_token": {tn, tv}}
		set := map[string]sqlVal{}
		for {
			n := r.name()
			r.want("=")
			set[n] = r.expr()
			if !r.take(",") {
				break
			}
		}
		cond := c.Bool(true)
		if r.take("where") {
			w := r.expr()
			cond = c.And(c.Not(w.null), w.v)
		}
		if r.i != len(toks) {
			r.bad("%q after the statement", r.peek())
		}
		if v, ok := set["scalar"]; ok {
			x.safe(st, "column scalar is not null", token.NoPos, c.Imp(cond, c.Not(v.null)))
			// for every row: which key it touches, and by how much it lowers the scalar
			x.event(st, "sql.apply", k, cond, c.Sub(s, v.v))
			x.wrHeap(st, "$owed", nil, SInt, c.Int(0))
			delete(set, "scalar")
		}
		if v, ok := set["last_token"]; ok {
			x.event(st, "sql.token", k, cond, tn, tv, v.null, v.v)
			delete(set, "last_token")
		}
		if len(set) > 0 {
			r.bad("update of a key")
		}
		n := c.Fresh("sql.rows", SInt)
		x.assume(st, c.Ge(n, c.Int(0)), false)
		return n
	}
	r.bad("statement %q", r.peek())
	return nil
}

func (x *Exec) sqlArgs(st *State, v Val) []sqlVal {
	c := x.c
	sl := v.(*VSlice)
	if !sl.len.isInt() {
		x.unsupported("SQL: unknown number of arguments")
	}
	var out []sqlVal
	for i := int64(0); i < sl.len.n.Int64(); i++ {
		p := &VPtr{cls: "[]" + className(sl.elem), idx: []*Term{sl.arr, c.Add(sl.off, c.Int(i))}, elem: sl.elem}
		iv := x.load(st, p, token.NoPos).(*VIface)
		if iv.dyn == nil {
			tag, _ := x.ifaceTerms(iv)
			if tag.isInt() && tag.n.Sign() == 0 {
				out = append(out, sqlVal{c.Bool(true), c.Int(0)})
				continue
			}
			if tag.isInt() {
				iv = &VIface{dyn: x.tagType[tag.n.Int64()], pay: iv.pay}
			}
			if iv.dyn == nil {
				x.unsupported("SQL: argument of unknown type")
			}
		}
		av := iv.val
		if av == nil {
			av = x.unpay(iv.dyn, iv.pay)
		}
		if pt, ok := iv.dyn.Underlying().(*types.Pointer); ok {
			_ = pt
			x.inSpec++
			w, ok := x.load(st, av.(*VPtr), token.NoPos).(*Term)
			x.inSpec--
			if !ok {
				x.unsupported("SQL: argument of type %s", iv.dyn)
			}
			out = append(out, sqlVal{c.Eq(x.refOf(av), c.Int(0)), w})
			continue
		}
		w, ok := av.(*Term)
		if !ok || w.sort != SInt {
			x.unsupported("SQL: argument of type %s", iv.dyn)
		}
		out = append(out, sqlVal{c.Bool(false), w})
	}
	return out
}

const sqlResTag = 1<<29 + 7

func init() {
	// a failure of the database
	fork := func(x *Exec, st *State, what string, ok func(*State), bad func(*State, Val)) {
		x.errForks(st, what, func(s *State, e Val) {
			if tag, _ := x.ifaceTerms(e.(*VIface)); tag.isInt() {
				ok(s)
				return
			}
			x.bump(s, "$failed")
			bad(s, e)
		})
	}
	begin := func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.used["database/sql (assumed: transactions over the documented schema)"] = true
		x.event(st, "sql.begin")
		fork(x, st, "begin", func(s *State) {
			x.wrHeap(s, "$tx", nil, SInt, x.c.Int(1))
			x.bump(s, "$begun")
			k(s, []Val{&VPtr{cls: "database/sql.Tx", idx: []*Term{x.newRef()}, elem: x.P.typ("database/sql.Tx")}, &VIface{}})
		}, func(s *State, e Val) {
			k(s, []Val{x.zero(fn.Signature.Results().At(0).Type()), e})
		})
	}
	m0("database/sql.DB.BeginTx database/sql.DB.Begin", begin)
	exec := func(x *Exec, st *State, q *Term, args Val, inTx bool, k func(*State, []Val)) {
		c := x.c
		s, ok := c.strVal[q]
		if !ok {
			x.unsupported("SQL: a statement that is not constant")
		}
		if !inTx {
			x.event(st, "sql.outside")
		} else {
			x.event(st, "sql.exec")
		}
		av := x.sqlArgs(st, args)
		fork(x, st, "exec", func(s2 *State) {
			n := x.sqlExec(s2, s, av)
			r := x.newRef()
			x.wrHeap(s2, "$rows", []*Term{r}, SInt, n)
			k(s2, []Val{&VIface{tag: c.Int(sqlResTag), pay: r}, &VIface{}})
		}, func(s2 *State, e Val) { k(s2, []Val{&VIface{}, e}) })
	}
	for _, h := range []string{"Tx", "DB"} {
		h := h
		m0("database/sql."+h+".ExecContext", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			exec(x, st, a[2].(*Term), a[3], h == "Tx", k)
		})
		m0("database/sql."+h+".Exec", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			exec(x, st, a[1].(*Term), a[2], h == "Tx", k)
		})
		prep := func(x *Exec, st *State, fn *ssa.Function, q *Term, k func(*State, []Val)) {
			fork(x, st, "prepare", func(s *State) {
				r := x.newRef()
				x.wrHeap(s, "$stmt", []*Term{r}, SInt, q)
				x.wrHeap(s, "$stmtTx", []*Term{r}, SBool, x.c.Bool(h == "Tx"))
				k(s, []Val{&VPtr{cls: "database/sql.Stmt", idx: []*Term{r}, elem: x.P.typ("database/sql.Stmt")}, &VIface{}})
			}, func(s *State, e Val) { k(s, []Val{x.zero(fn.Signature.Results().At(0).Type()), e}) })
		}
		m0("database/sql."+h+".PrepareContext", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			prep(x, st, fn, a[2].(*Term), k)
		})
		m0("database/sql."+h+".Prepare", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			prep(x, st, fn, a[1].(*Term), k)
		})
	}
	stmt := func(x *Exec, st *State, p *VPtr, args Val, k func(*State, []Val)) {
		x.use(st)
		q := x.rdHeap(st, "$stmt", p.idx, SInt)
		in := x.rdHeap(st, "$stmtTx", p.idx, SBool)
		exec(x, st, q, args, in.isTrue(), k)
	}
	m0("database/sql.Stmt.ExecContext", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		stmt(x, st, a[0].(*VPtr), a[2], k)
	})
	m0("database/sql.Stmt.Exec", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		stmt(x, st, a[0].(*VPtr), a[1], k)
	})
	m0("database/sql.Stmt.Close", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.errForks(st, "close", func(s *State, e Val) { k(s, []Val{e}) })
	})
	m0("database/sql.Tx.Commit", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.event(st, "sql.commit")
		x.wrHeap(st, "$tx", nil, SInt, x.c.Int(2))
		fork(x, st, "commit", func(s *State) {
			x.bump(s, "$committed")
			k(s, []Val{&VIface{}})
		}, func(s *State, e Val) { k(s, []Val{e}) })
	})
	m0("database/sql.Tx.Rollback", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.nonNil(st, a[0].(*VPtr), pos)
		x.wrHeap(st, "$tx", nil, SInt, x.c.Int(2))
		x.errForks(st, "rollback", func(s *State, e Val) { k(s, []Val{e}) })
	})
	ifaceModels["database/sql.Result.RowsAffected"] = func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
		_, pay := x.ifaceTerms(iv)
		n := x.rdHeap(st, "$rows", []*Term{pay}, SInt)
		fork(x, st, "rows", func(s *State) { k(s, []Val{n, &VIface{}}) }, func(s *State, e Val) {
			k(s, []Val{x.c.Int(0), e})
		})
	}
}
