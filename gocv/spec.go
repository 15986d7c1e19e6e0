package main

// Contracts: text files with Go-expression syntax, evaluated over symbolic states.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	kind  string // requires, domain, ensures, sets, let, assume, model
	props []string
	label string
	expr  ast.Expr
	lhs   ast.Expr
	name  string
	src   string
	where string
}

type Contract struct {
	name    string // normalised: pkg.T.M
	pkg     string
	params  []string
	results []string
	clauses []clause
	opts    map[string]string
	where   string
	client  func(x *Exec, st *State, args []Val, k func(*State, []Val))
}

type specDef struct {
	name   string
	params []string
	body   ast.Expr
	ghost  bool
	bool_  bool
	pkg    string
}

type SpecEnv struct {
	pkg       string
	defs      map[string]*specDef // "pkg.name" and "name"
	contracts map[string]*Contract
	order     []*Contract
	lemmas    []*Contract
}

var theSpec *SpecEnv

func contractFor(name string) *Contract {
	if theSpec == nil {
		return nil
	}
	return theSpec.contracts[normName(name)]
}

func loadSpecs(dir string) (*SpecEnv, error) {
	env := &SpecEnv{defs: map[string]*specDef{}, contracts: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := env.parse(f); err != nil {
			return nil, err
		}
	}
	theSpec = env
	return env, nil
}

func (e *SpecEnv) parse(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	// join continuation lines (deeper indentation than the clause keyword, or open parentheses)
	type ln struct {
		no  int
		txt string
	}
	var lines []ln
	depth := 0
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if depth > 0 || strings.HasPrefix(l, "      ") {
			lines[len(lines)-1].txt += " " + strings.TrimSpace(l)
		} else {
			lines = append(lines, ln{i + 1, l})
		}
		depth += strings.Count(l, "(") - strings.Count(l, ")")
	}
	pkg := ""
	var cur *Contract
	for _, l := range lines {
		t := strings.TrimSpace(l.txt)
		where := fmt.Sprintf("%s:%d", filepath.Base(file), l.no)
		word, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		fail := func(err error) error { return fmt.Errorf("%s: %v in %q", where, err, t) }
		var props []string
		if i := strings.Index(word, "["); i >= 0 {
			props = strings.Split(strings.Trim(word[i:], "[]"), ",")
			word = word[:i]
		}
		ex := func(s string) (ast.Expr, error) {
			r, err := parser.ParseExpr(s)
			if err != nil {
				return nil, fail(err)
			}
			return r, nil
		}
		switch word {
		case "package":
			pkg = rest
		case "def", "ghost", "bghost", "gdef":
			if eq := strings.Index(rest, "="); eq > 0 && !strings.Contains(rest[:eq], "(") {
				rest = strings.TrimSpace(rest[:eq]) + "() " + rest[eq:]
			}
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			d := &specDef{name: rest[:i], ghost: word == "ghost" || word == "bghost", bool_: word == "bghost", pkg: pkg}
			for _, p := range strings.Split(rest[i+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					d.params = append(d.params, p)
				}
			}
			if k := strings.Index(rest[j:], "="); k >= 0 {
				b, err := ex(rest[j+k+1:])
				if err != nil {
					return err
				}
				d.body = b
			}
			e.defs[pkg+"."+d.name] = d
			if e.defs[d.name] == nil {
				e.defs[d.name] = d
			}
		case "contract", "lemma":
			i := strings.Index(rest, "(")
			nm := rest[:i]
			j := strings.Index(rest, ")")
			cur = &Contract{pkg: pkg, opts: map[string]string{}, where: where}
			cur.name = pkg + "." + nm
			for _, p := range strings.Split(rest[i+1:j], ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.params = append(cur.params, p)
				}
			}
			if r := strings.TrimSpace(rest[j+1:]); r != "" {
				for _, p := range strings.Split(strings.Trim(r, "()"), ",") {
					cur.results = append(cur.results, strings.TrimSpace(p))
				}
			}
			if word == "lemma" {
				e.lemmas = append(e.lemmas, cur)
				for _, p := range props {
					cur.opts["prop"] = p
				}
			} else {
				e.contracts[cur.name] = cur
				e.order = append(e.order, cur)
			}
		case "option":
			k, v, _ := strings.Cut(rest, " ")
			cur.opts[k] = strings.TrimSpace(v)
		case "any":
			cur.clauses = append(cur.clauses, clause{kind: "any", name: rest, where: where, src: rest})
		case "other":
			// other w v: another object of v's type
			a, b, _ := strings.Cut(rest, " ")
			cur.clauses = append(cur.clauses, clause{kind: "other", name: a, label: strings.TrimSpace(b), where: where, src: rest})
		case "pure":
			// pure[P] "label" EXPR | DEP, DEP...: EXPR after the call is a function of the DEPs before it
			cl := clause{kind: word, props: props, src: rest, where: where}
			if strings.HasPrefix(rest, "\"") {
				j := strings.Index(rest[1:], "\"")
				cl.label = rest[1 : 1+j]
				rest = strings.TrimSpace(rest[j+2:])
			}
			a, b, _ := strings.Cut(rest, "|")
			var err error
			if cl.expr, err = ex(strings.TrimSpace(a)); err != nil {
				return err
			}
			if cl.lhs, err = ex("f(" + b + ")"); err != nil {
				return err
			}
			cur.clauses = append(cur.clauses, cl)
		case "at":
			// at[P] "label" NAME : EXPR holds at every call of NAME (a0, a1...: its arguments; "go", "chan.close"...)
			cl := clause{kind: word, props: props, src: rest, where: where}
			if strings.HasPrefix(rest, "\"") {
				j := strings.Index(rest[1:], "\"")
				cl.label = rest[1 : 1+j]
				rest = strings.TrimSpace(rest[j+2:])
			}
			a, b, _ := strings.Cut(rest, " : ")
			cl.name = strings.TrimSpace(a)
			var err error
			if cl.expr, err = ex(strings.TrimSpace(b)); err != nil {
				return err
			}
			cur.clauses = append(cur.clauses, cl)
		case "guarded", "readonly":
			// guarded[P] LOCK | COND | KEYS       readonly[P] PREFIX | KEYS NOT INCLUDED
			cl := clause{kind: word, props: props, src: rest, where: where}
			parts := strings.Split(rest, "|")
			if word == "guarded" {
				var err error
				if cl.lhs, err = ex(strings.TrimSpace(parts[0])); err != nil {
					return err
				}
				if cl.expr, err = ex(strings.TrimSpace(parts[1])); err != nil {
					return err
				}
				cl.name = parts[2]
			} else {
				cl.name, cl.label = strings.TrimSpace(parts[0]), parts[1]
			}
			cur.clauses = append(cur.clauses, cl)
		case "requires", "domain", "ensures", "sets", "let", "assume", "allocates", "invariant", "keeps", "cases":
			if cur == nil {
				return fail(fmt.Errorf("no contract"))
			}
			cl := clause{kind: word, props: props, src: rest, where: where}
			if strings.HasPrefix(rest, "\"") {
				j := strings.Index(rest[1:], "\"")
				cl.label = rest[1 : 1+j]
				rest = strings.TrimSpace(rest[j+2:])
				cl.src = rest
			}
			if word == "let" {
				n, r, _ := strings.Cut(rest, "=")
				cl.name = strings.TrimSpace(n)
				rest = r
			}
			if word == "sets" {
				i := topEq(rest)
				if i < 0 {
					return fail(fmt.Errorf("sets without ="))
				}
				l, err := ex(rest[:i])
				if err != nil {
					return err
				}
				cl.lhs = l
				rest = rest[i+1:]
			}
			if word == "allocates" {
				cl.name = rest
				cur.clauses = append(cur.clauses, cl)
				continue
			}
			r, err := ex(rest)
			if err != nil {
				return err
			}
			cl.expr = r
			cur.clauses = append(cur.clauses, cl)
		default:
			return fail(fmt.Errorf("unknown clause %q", word))
		}
	}
	return nil
}

func topEq(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '=':
			if d == 0 && (i+1 >= len(s) || s[i+1] != '=') && (i == 0 || !strings.ContainsRune("=!<>", rune(s[i-1]))) {
				return i
			}
		}
	}
	return -1
}

// scope of an evaluation
type scope struct {
	x    *Exec
	st   *State
	old  *State
	vars map[string]Val
	pkg  string
	impl bool // ghosts are expanded to their definitions
	d    int
}

func (s *scope) sub(st *State) *scope {
	n := *s
	n.st = st
	return &n
}
func (s *scope) with(name string, v Val) *scope {
	n := *s
	n.vars = make(map[string]Val, len(s.vars)+1)
	for k, w := range s.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

type specErr struct{ msg string }

func (s *scope) fail(e ast.Expr, f string, a ...interface{}) {
	panic(unsupportedErr{"contract: " + fmt.Sprintf(f, a...)})
}

func (s *scope) term(e ast.Expr) *Term {
	v := s.eval(e)
	switch w := v.(type) {
	case *Term:
		return w
	case *VSpecial:
		if t, ok := w.m[""]; ok {
			return t
		}
	case *VPtr:
		if _, ok := specialLeaves(w.elem); !ok {
			return s.x.refOf(w)
		}
	case *VIface:
		_, p := s.x.ifaceTerms(w)
		return p
	}
	s.fail(e, "%s is not a scalar (%T)", exprStr(e), v)
	return nil
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (s *scope) eval(e ast.Expr) Val {
	x, c := s.x, s.x.c
	x.use(s.st)
	x.inSpec++
	defer func() { x.inSpec-- }()
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(e.Value, 0)
			if !ok {
				s.fail(e, "bad number")
			}
			return c.BigInt(n)
		case token.STRING:
			v, _ := strconv.Unquote(e.Value)
			return c.Str(v)
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return c.Bool(true)
		case "false":
			return c.Bool(false)
		case "nil":
			return c.Int(0)
		}
		if v, ok := s.vars[e.Name]; ok {
			return v
		}
		if d := s.def(e.Name); d != nil && len(d.params) == 0 {
			return s.apply(d, nil)
		}
		if p := s.x.P.prog.ImportedPackage(s.pkg); p != nil {
			if g, ok := p.Members[e.Name].(*ssa.Global); ok {
				return s.loadOr(s.x.val(s.st, nil, g).(*VPtr))
			}
		}
		s.fail(e, "unknown name %s", e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.SUB:
			return c.Neg(s.term(e.X))
		case token.NOT:
			return c.Not(s.term(e.X))
		}
	case *ast.StarExpr:
		return x.load(s.st, s.eval(e.X).(*VPtr), token.NoPos)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return c.And(s.term(e.X), s.term(e.Y))
		case token.LOR:
			return c.Or(s.term(e.X), s.term(e.Y))
		case token.EQL, token.NEQ:
			t := s.equal(e.X, e.Y)
			if e.Op == token.NEQ {
				t = c.Not(t)
			}
			return t
		}
		a, b := s.term(e.X), s.term(e.Y)
		switch e.Op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			return c.Div(a, b)
		case token.REM:
			return c.Mod(a, b)
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Gt(a, b)
		case token.GEQ:
			return c.Ge(a, b)
		case token.SHL:
			return c.Mul(a, c.App("pow2", SInt, b))
		}
	case *ast.SelectorExpr:
		return s.sel(e)
	case *ast.IndexExpr:
		return s.index(e)
	case *ast.CallExpr:
		return s.call(e)
	}
	s.fail(e, "cannot evaluate %s", exprStr(e))
	return nil
}

func (s *scope) equal(a, b ast.Expr) *Term {
	x, c := s.x, s.x.c
	u, v := s.eval(a), s.eval(b)
	deref := func(p, o Val) Val { // an embedded struct against a struct value
		if w, ok := p.(*VPtr); ok {
			if _, ok := o.(*VStruct); ok {
				return x.load(s.st, w, token.NoPos)
			}
		}
		return p
	}
	u, v = deref(u, v), deref(v, u)
	if t, ok := v.(*Term); ok && t.isInt() && t.n.Sign() == 0 { // nil
		switch w := u.(type) {
		case *VIface:
			tg, _ := x.ifaceTerms(w)
			return c.Eq(tg, t)
		case *VSlice:
			return c.Eq(w.arr, t)
		case *VPtr:
			return c.Eq(x.refOf(w), t)
		case *VFunc:
			return c.Eq(x.funcRef(w), t)
		}
	}
	_, ut := u.(*Term)
	_, vt := v.(*Term)
	if ut != vt {
		return c.Eq(s.term(a), s.term(b))
	}
	return x.equal(s.st, u, v)
}

func (s *scope) def(name string) *specDef {
	e := theSpec
	if d := e.defs[s.pkg+"."+name]; d != nil {
		return d
	}
	return e.defs[name]
}

func (s *scope) apply(d *specDef, args []Val) Val {
	if len(args) != len(d.params) {
		s.fail(nil, "%s takes %d arguments", d.name, len(d.params))
	}
	if d.ghost && (!s.impl || d.body == nil || d.pkg != s.pkg) {
		return s.x.rdHeap(s.st, "$"+d.name, s.ghostIdx(args), d.sort())
	}
	if s.d > 30 {
		s.fail(nil, "definition recursion at %s", d.name)
	}
	n := *s
	n.d++
	n.vars = map[string]Val{}
	for i, p := range d.params {
		n.vars[p] = args[i]
	}
	n.pkg = d.pkg
	return n.eval(d.body)
}
func (d *specDef) sort() Sort {
	if d.bool_ {
		return SBool
	}
	return SInt
}
func (s *scope) ghostIdx(args []Val) []*Term {
	var idx []*Term
	for _, a := range args {
		switch w := a.(type) {
		case *Term:
			idx = append(idx, w)
		case *VPtr:
			idx = append(idx, s.x.refOf(w))
		case *VIface:
			_, p := s.x.ifaceTerms(w)
			idx = append(idx, p)
		case *VFunc:
			idx = append(idx, s.x.funcRef(w))
		default:
			s.fail(nil, "ghost index %T", a)
		}
	}
	return idx
}

func (s *scope) sel(e *ast.SelectorExpr) Val {
	v := s.eval(e.X)
	return s.field(v, e.Sel.Name, e)
}

// field reads a field by name, looking through embedded structs.
func (s *scope) field(v Val, name string, e ast.Expr) Val {
	x := s.x
	switch w := v.(type) {
	case *VPtr:
		p := w
		if ls, ok := specialLeaves(p.elem); ok {
			for _, l := range ls {
				if l.suf == "."+name {
					return x.rdHeap(s.st, p.cls+l.suf, p.idx, l.sort)
				}
			}
		}
		if pt, ok := w.elem.Underlying().(*types.Pointer); ok {
			p = x.load(s.st, w, token.NoPos).(*VPtr)
			_ = pt
		}
		stt, ok := p.elem.Underlying().(*types.Struct)
		if !ok {
			s.fail(e, "%s is not a struct", exprStr(e))
		}
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == name {
				return s.loadOr(x.field(p, stt, i))
			}
		}
	case *VStruct:
		stt := w.typ.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == name {
				return w.fields[i]
			}
		}
	case *VSpecial:
		if t, ok := w.m["."+name]; ok {
			return t
		}
	}
	s.fail(e, "no field %s (%T)", name, v)
	return nil
}

// loadOr loads through a field pointer; library objects without value semantics stay addresses.
func (s *scope) loadOr(p *VPtr) Val {
	x := s.x
	x.use(s.st)
	g := x.guard
	x.guard = nil
	defer func() { x.guard = g }()
	if ls, ok := specialLeaves(p.elem); ok {
		if len(ls) == 1 && ls[0].suf == "" {
			v := x.rdHeap(s.st, p.cls, p.idx, ls[0].sort)
			switch typeName(p.elem) {
			case "sync/atomic.Int64":
				x.rangeFact(v, "s64")
			case "sync/atomic.Uint64":
				x.rangeFact(v, "u64")
			case "sync/atomic.Uint32":
				x.rangeFact(v, "u32")
			case "sync/atomic.Int32":
				x.rangeFact(v, "s32")
			}
			return v
		}
		return p
	}
	if st, ok := p.elem.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
		return p
	}
	if p.arrN > 0 {
		return p
	}
	if _, ok := p.elem.Underlying().(*types.Array); ok {
		return p
	}
	return x.load(s.st, p, token.NoPos)
}

func (s *scope) index(e *ast.IndexExpr) Val {
	x, c := s.x, s.x.c
	v := s.eval(e.X)
	switch w := v.(type) {
	case *VSlice:
		i := s.term(e.Index)
		return s.loadOr(&VPtr{cls: "[]" + className(w.elem), idx: []*Term{w.arr, c.Add(w.off, i)}, elem: w.elem})
	case *VArr:
		i := s.term(e.Index)
		if i.isInt() {
			return w.elems[i.n.Int64()]
		}
	case *VPtr:
		i := s.term(e.Index)
		if w.arrN > 0 {
			et := w.elem.Underlying().(*types.Array).Elem()
			return s.loadOr(&VPtr{cls: w.cls, idx: []*Term{w.idx[0], i}, elem: et})
		}
		if typeName(w.elem) == "sync.Map" {
			t := x.smType(w.cls)
			pay := x.rdHeap(s.st, w.cls+".vpay", append(append([]*Term(nil), w.idx...), i), SInt)
			if t == nil {
				s.fail(e, "sync.Map with several value types")
			}
			return x.unpay(t, pay)
		}
		if a, ok := w.elem.Underlying().(*types.Array); ok && i.isInt() {
			return s.loadOr(&VPtr{cls: w.cls + fmt.Sprintf("[%d]", i.n.Int64()), idx: w.idx, elem: a.Elem()})
		}
	}
	s.fail(e, "cannot index %s (%T)", exprStr(e), v)
	return nil
}

func (s *scope) ident(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	s.fail(e, "name expected")
	return ""
}

func (s *scope) call(e *ast.CallExpr) Val {
	x, c := s.x, s.x.c
	fn := ""
	switch f := e.Fun.(type) {
	case *ast.Ident:
		fn = f.Name
	default:
		s.fail(e, "call of %s", exprStr(e.Fun))
	}
	arg := func(i int) *Term { return s.term(e.Args[i]) }
	switch fn {
	case "old":
		if s.old == nil {
			s.fail(e, "old outside a postcondition")
		}
		r := s.sub(s.old).eval(e.Args[0])
		x.use(s.st)
		// what is known of earlier values stays known
		if !s.st.dead {
			for _, p := range s.old.pc {
				if !p.branch && !s.st.pcset[p.t] {
					x.assume(s.st, p.t, false)
				}
			}
		}
		return r
	case "implies":
		return c.Imp(arg(0), arg(1))
	case "iff":
		return c.Eq(arg(0), arg(1))
	case "ite":
		return c.Ite(arg(0), arg(1), arg(2))
	case "abs":
		t := arg(0)
		return c.Ite(c.Ge(t, c.Int(0)), t, c.Neg(t))
	case "min":
		a, b := arg(0), arg(1)
		return c.Ite(c.Le(a, b), a, b)
	case "max":
		a, b := arg(0), arg(1)
		return c.Ite(c.Le(a, b), b, a)
	case "wrap64":
		return c.Wrap("s64", arg(0))
	case "wrapu64":
		return c.Wrap("u64", arg(0))
	case "cong64":
		// equal modulo 2^64
		return c.Eq(c.Wrap("s64", arg(0)), c.Wrap("s64", arg(1)))
	case "pow2":
		return c.App("pow2", SInt, arg(0))
	case "ispow2":
		return c.App("ispow2", SBool, arg(0))
	case "sum":
		bv := c.TempBV()
		n := s.with(s.ident(e.Args[0]), bv)
		lo, hi := s.term(e.Args[1]), s.term(e.Args[2])
		o := x.noFacts
		x.noFacts = true
		b := n.term(e.Args[3])
		x.noFacts = o
		return c.Sum(bv, lo, hi, b)
	case "forall":
		bv := c.TempBV()
		n := s.with(s.ident(e.Args[0]), bv)
		o := x.noFacts
		x.noFacts = true
		b := n.term(e.Args[len(e.Args)-1])
		if len(e.Args) == 4 {
			b = c.Imp(c.And(c.Le(s.term(e.Args[1]), bv), c.Lt(bv, s.term(e.Args[2]))), b)
		}
		x.noFacts = o
		return c.Forall(bv, b)
	case "len":
		switch v := s.eval(e.Args[0]).(type) {
		case *VSlice:
			return v.len
		case *Term:
			if sv, ok := c.strVal[v]; ok {
				return c.Int(int64(len(sv)))
			}
			return c.App("strlen", SInt, v)
		}
	case "iter":
		return x.iter
	case "loopnum":
		return c.Int(int64(x.loopNum))
	case "entry":
		// the value when the loop was entered
		if x.entry == nil {
			s.fail(e, "entry outside a loop invariant")
		}
		r := s.sub(x.entry).eval(e.Args[0])
		x.use(s.st)
		return r
	case "arrayof":
		var es []Val
		for i := range e.Args {
			es = append(es, arg(i))
		}
		return &VArr{types.Typ[types.Uint64], es}
	case "deref":
		p := s.eval(e.Args[0]).(*VPtr)
		g := x.guard
		x.guard = nil
		v := x.load(s.st, p, token.NoPos)
		x.guard = g
		return v
	case "cap":
		if v, ok := s.eval(e.Args[0]).(*VSlice); ok {
			return v.cap
		}
	case "ref":
		return x.refOf(s.eval(e.Args[0]))
	case "arr":
		return s.eval(e.Args[0]).(*VSlice).arr
	case "off":
		return s.eval(e.Args[0]).(*VSlice).off
	case "frontier":
		return x.rdHeap(s.st, "$frontier", []*Term{s.eval(e.Args[0]).(*VSlice).arr}, SInt)
	case "owned":
		v := s.eval(e.Args[0]).(*VSlice)
		return c.Eq(x.rdHeap(s.st, "$frontier", []*Term{v.arr}, SInt), c.Add(v.off, v.len))
	case "has":
		switch w := s.eval(e.Args[0]).(type) {
		case *VPtr: // sync.Map
			return x.rdHeap(s.st, w.cls+".dom", append(append([]*Term(nil), w.idx...), arg(1)), SBool)
		}
	case "maphas", "mapget", "maplen":
		// maphas(ptr, "field", key) reaches a Go map through the field's static type,
		// maphas("map[K]V", m, key) names the type
		if bl, ok := e.Args[0].(*ast.BasicLit); ok {
			src, _ := strconv.Unquote(bl.Value)
			tv, err := types.Eval(x.P.prog.Fset, x.P.prog.ImportedPackage(s.pkg).Pkg, token.NoPos, src)
			if err != nil {
				s.fail(e, "%v", err)
			}
			mt := tv.Type.Underlying().(*types.Map)
			r := arg(1)
			if fn == "maplen" {
				return x.rdHeap(s.st, mapCls(mt)+".len", []*Term{r}, SInt)
			}
			val, dom := x.mapGet(s.st, mt, r, x.keyTerm(mt.Key(), s.eval(e.Args[2])))
			if fn == "maphas" {
				return dom
			}
			return val
		}
		v := s.eval(e.Args[0]).(*VPtr)
		fld := ""
		if bl, ok := e.Args[1].(*ast.BasicLit); ok {
			fld, _ = strconv.Unquote(bl.Value)
		}
		stt := v.elem.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() != fld {
				continue
			}
			mt := stt.Field(i).Type().Underlying().(*types.Map)
			r := x.load(s.st, x.field(v, stt, i), token.NoPos).(*Term)
			switch fn {
			case "maplen":
				return x.rdHeap(s.st, mapCls(mt)+".len", []*Term{r}, SInt)
			}
			key := x.keyTerm(mt.Key(), s.eval(e.Args[2]))
			val, dom := x.mapGet(s.st, mt, r, key)
			if fn == "maphas" {
				return dom
			}
			return val
		}
	case "some":
		// some(q, k, P): P at the position q where the element of key k was put
		nm := s.ident(e.Args[0])
		return s.witness(nm, arg(1), func(n *scope) *Term { return n.term(e.Args[2]) })
	case "acquired":
		// lock acquisitions since entry
		var k []*Term
		n := x.rdHeap(s.st, "$acquired", k, SInt)
		return c.Sub(n, x.rdHeap(x.pre, "$acquired", k, SInt))
	case "spawned":
		n := x.rdHeap(s.st, "$spawns", nil, SInt)
		return c.Sub(n, x.rdHeap(x.pre, "$spawns", nil, SInt))
	case "closed":
		return x.rdHeap(s.st, "chan.closed", []*Term{arg(0)}, SBool)
	case "ghost", "bghost":
		bl, ok := e.Args[0].(*ast.BasicLit)
		if !ok {
			s.fail(e, "ghost name")
		}
		n, _ := strconv.Unquote(bl.Value)
		var args []Val
		for _, a := range e.Args[1:] {
			args = append(args, s.eval(a))
		}
		so := SInt
		if fn == "bghost" {
			so = SBool
		}
		return x.rdHeap(s.st, n, s.ghostIdx(args), so)
	case "tagof":
		n, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		t := x.P.typ(n)
		if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
			t = o.Type()
		}
		if t == nil {
			s.fail(e, "no type %s", n)
		}
		return x.tagOf(t)
	case "tag":
		t, _ := x.ifaceTerms(s.eval(e.Args[0]).(*VIface))
		return t
	case "dec":
		return x.decText(arg(0))
	case "cat":
		var ts []*Term
		for i := range e.Args {
			ts = append(ts, arg(i))
		}
		return x.cat(ts...)
	case "str":
		return x.bytesToString(s.st, s.eval(e.Args[0]).(*VSlice))
	case "json", "jsonhas":
		n, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		has, v, err := jsonField(c, x.bytesToString(s.st, s.eval(e.Args[0]).(*VSlice)), n)
		if err != nil {
			s.fail(e, "%v", err)
		}
		if fn == "json" {
			return v
		}
		return has
	case "payload":
		_, p := x.ifaceTerms(s.eval(e.Args[0]).(*VIface))
		return p
	case "unbox":
		bl := e.Args[0].(*ast.BasicLit)
		n, _ := strconv.Unquote(bl.Value)
		t := x.P.typ(n)
		if t == nil {
			s.fail(e, "no type %s", n)
		}
		return x.unpay(t, arg(1))
	case "decodable", "decodes":
		// decodable("T", line): a JSON document of type T; decodes("T", line, v): the one of v
		bl := e.Args[0].(*ast.BasicLit)
		n, _ := strconv.Unquote(bl.Value)
		t := x.P.typ(n)
		if t == nil {
			s.fail(e, "no type %s", n)
		}
		x.use(s.st)
		ok, v := x.jsonDecode(arg(1), t, x.zero(t))
		if fn == "decodable" {
			return ok
		}
		w := s.eval(e.Args[2])
		if p, isp := w.(*VPtr); isp {
			w = x.load(s.st, p, token.NoPos)
		}
		return c.And(ok, x.equal(s.st, v, w))
	case "app", "bapp":
		bl := e.Args[0].(*ast.BasicLit)
		n, _ := strconv.Unquote(bl.Value)
		var ts []*Term
		for i := range e.Args[1:] {
			ts = append(ts, arg(i+1))
		}
		so := SInt
		if fn == "bapp" {
			so = SBool
		}
		return c.App(n, so, ts...)
	}
	if d := s.def(fn); d != nil {
		var args []Val
		for _, a := range e.Args {
			args = append(args, s.eval(a))
		}
		return s.apply(d, args)
	}
	s.fail(e, "unknown function %s", fn)
	return nil
}

// ---------- verifying one function against its contract ----------

func (x *Exec) bindParams(ct *Contract, fn *ssa.Function, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, p := range ct.params {
		if i < len(args) {
			m[p] = args[i]
		}
	}
	return m
}

// verify generates the obligations of ct for the body of fn.
func (x *Exec) verify(ct *Contract, fn *ssa.Function) {
	c := x.c
	x.target = ct.name
	x.spec = &SpecEnv{pkg: ct.pkg}
	x.anys = map[string]Val{}
	if p := ct.opts["safety"]; p != "" {
		x.safety = strings.Fields(p)
	}
	st := newState()
	x.use(st)
	var args []Val
	for i, p := range fn.Params {
		v := x.paramVal(st, ct, i, p.Type())
		args = append(args, v)
	}
	if len(ct.params) != len(fn.Params) {
		x.unsupported("contract %s names %d parameters, the function has %d", ct.name, len(ct.params), len(fn.Params))
	}
	vars := x.bindParams(ct, fn, args)
	x.c.bounds = st.bounds
	sc := &scope{x: x, st: st, vars: vars, pkg: ct.pkg, impl: true}
	x.commonOptions(ct)
	for _, cl := range ct.clauses {
		if cl.kind == "any" {
			for _, n := range strings.Fields(cl.name) {
				v := c.Var("p."+n, SInt)
				vars[n] = v
				x.anys[n] = v
			}
		}
	}
	if setup := setups[ct.opts["setup"]]; setup != nil {
		setup(x, st, ct, vars)
	}
	c.witness = ct.opts["witness"] != ""
	// slices of the same object with separate backings: their references are made distinct numbers
	for i, f := range strings.Fields(ct.opts["apart"]) {
		b, fl, _ := strings.Cut(f, ".")
		p := vars[b].(*VPtr)
		x.assume(st, c.Not(c.Eq(x.refOf(p), c.Int(0))), false)
		stt := p.elem.Underlying().(*types.Struct)
		ok := false
		for j := 0; j < stt.NumFields(); j++ {
			if stt.Field(j).Name() == fl {
				fp := x.field(p, stt, j)
				v := x.load(st, fp, token.NoPos).(*VSlice)
				x.store(st, fp, &VSlice{v.elem, c.Int(1<<39 + int64(i)), v.off, v.len, v.cap}, token.NoPos)
				ok = true
			}
		}
		if !ok {
			x.unsupported("apart: no field %s", f)
		}
	}
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires", "domain", "assume":
			x.assume(st, sc.term(cl.expr), false)
		case "let":
			vars[cl.name] = sc.eval(cl.expr)
		case "other":
			p := vars[cl.label].(*VPtr)
			r := c.Var("p."+sanitize(cl.name), SInt)
			x.factRange(r, bigOne, big.NewInt(1<<40-1))
			vars[cl.name] = x.ptrFromRef(p.elem, r)
		}
	}
	if st.dead {
		x.unsupported("the precondition of %s is contradictory", ct.name)
	}
	// vacuity: the precondition is satisfiable
	x.reach(st, "precondition satisfiable")
	for n, v := range vars {
		if t, ok := v.(*Term); ok {
			x.wanted[n] = t
		}
	}
	returned := 0
	pures := map[string][]purePath{}
	// the cases of the contract are verified separately
	run := func(st *State) { x.verifyBody(ct, fn, st, args, vars, &returned, pures) }
	for i := len(ct.clauses) - 1; i >= 0; i-- {
		if cl := ct.clauses[i]; cl.kind == "cases" {
			next := run
			run = func(st *State) {
				x.use(st)
				t := (&scope{x: x, st: st, vars: vars, pkg: ct.pkg, impl: true}).term(cl.expr)
				x.fork(st, t, next, next)
			}
		}
	}
	run(st)
	for _, cl := range ct.clauses {
		if cl.kind == "pure" {
			x.purity(cl, pures[cl.where])
		}
	}
	if returned == 0 && ct.opts["noreturn"] == "" {
		x.unsupported("%s never returns on any explored path", ct.name)
	}
}

func (x *Exec) verifyBody(ct *Contract, fn *ssa.Function, st *State, args []Val, vars map[string]Val, returned *int, pures map[string][]purePath) {
	c := x.c
	x.filters = map[string]*filter{}
	pre := st.clone()
	x.pre = pre
	if m := modes[ct.opts["mode"]]; m != nil {
		m(x, st, ct, vars)
	}
	x.installGuards(ct, vars, pre)
	hook0 := x.hooks.call
	defer func() { x.hooks.call = hook0 }()
	x.installCalls(ct, vars, pre)
	x.installOpens(ct)
	x.keeps = nil
	for _, cl := range ct.clauses {
		if cl.kind == "keeps" {
			cl := cl
			x.keeps = append(x.keeps, keep{cl, func(s *State) *Term {
				return (&scope{x: x, st: s, old: pre, vars: vars, pkg: ct.pkg, impl: true}).term(cl.expr)
			}, strings.Contains(cl.src, "iter()") || strings.Contains(cl.src, "loopnum()")})
		}
	}
	x.callFnTop(st, fn, args, func(s *State, rs []Val) {
		if s.dead {
			return
		}
		*returned++
		x.use(s)
		post := &scope{x: x, st: s, old: pre, vars: map[string]Val{}, pkg: ct.pkg, impl: true}
		for k, v := range vars {
			post.vars[k] = v
		}
		for i, r := range rs {
			n := fmt.Sprintf("r%d", i)
			if i < len(ct.results) {
				n = ct.results[i]
			}
			post.vars[n] = r
		}
		g := x.guard
		x.guard = nil
		for _, cl := range ct.clauses {
			switch cl.kind {
			case "invariant":
				x.assume(s, post.term(cl.expr), false)
			}
		}
		for _, cl := range ct.clauses {
			switch cl.kind {
			case "ensures":
				x.oblige(s, cl.props, "ensures: "+first(cl.label, cl.src), token.NoPos, post.term(cl.expr))
			case "pure":
				pr := post.sub(pre)
				pr.old = pre
				p := purePath{st: s, val: post.term(cl.expr)}
				for _, e := range cl.lhs.(*ast.CallExpr).Args {
					p.deps = append(p.deps, x.flatten(pr.eval(e))...)
				}
				x.use(s)
				pures[cl.where] = append(pures[cl.where], p)
			case "sets":
				l := post.term(cl.lhs)
				// the right side reads the entry state
				pr := post.sub(pre)
				pr.old = pre
				r := pr.term(cl.expr)
				x.use(s)
				x.oblige(s, cl.props, "ensures: "+first(cl.label, exprStr(cl.lhs)+" == "+cl.src[topEq(cl.src)+1:]), token.NoPos, c.Eq(l, r))
			}
		}
		if ct.opts["modular"] != "" {
			x.frame(s, pre, ct, vars)
		}
		if f := finals[ct.opts["final"]]; f != nil {
			f(x, s, ct, post, rs)
		}
		x.guard = g
		x.reach(s, fmt.Sprintf("path %d", *returned))
	})
}

// installGuards turns guarded and readonly clauses into obligations at every memory access.
func (x *Exec) installGuards(ct *Contract, vars map[string]Val, pre *State) {
	type gd struct {
		props []string
		lock  *VPtr
		cond  *Term
		keys  map[string]bool
	}
	type ro struct {
		props  []string
		prefix string
		except map[string]bool
	}
	var gs []gd
	var rs []ro
	set := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, k := range strings.Fields(s) {
			m[k] = true
		}
		return m
	}
	sc := &scope{x: x, st: pre, old: pre, vars: vars, pkg: ct.pkg, impl: true}
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "guarded":
			p, ok := sc.eval(cl.lhs).(*VPtr)
			if !ok {
				x.unsupported("guarded: %s is not a lock", exprStr(cl.lhs))
			}
			gs = append(gs, gd{cl.props, p, sc.term(cl.expr), set(cl.name)})
		case "readonly":
			rs = append(rs, ro{cl.props, cl.name, set(cl.label)})
		}
	}
	if len(gs)+len(rs) == 0 {
		return
	}
	c := x.c
	x.guard = func(st *State, key string, idx []*Term, write bool) {
		if x.inSpec > 0 || x.dry > 0 || len(idx) > 0 && x.freshRefs[idx[0]] {
			return
		}
		for _, g := range gs {
			if g.keys[key] {
				held := x.rdHeap(st, g.lock.cls+".held", g.lock.idx, SInt)
				ok := c.Ge(held, c.Int(1))
				if !write {
					if sh, has := st.heap[g.lock.cls+".readers"]; has {
						ok = c.Or(ok, c.Ge(c.SelectN(sh, g.lock.idx), c.Int(1)))
					}
				}
				x.oblige(st, g.props, "lock held at every access of "+key, token.NoPos, c.Imp(g.cond, ok))
			}
		}
		if write {
			for _, r := range rs {
				if strings.HasPrefix(key, r.prefix) && !r.except[key] {
					x.oblige(st, r.props, "never written after construction: "+key, token.NoPos, c.Bool(false))
				}
			}
		}
	}
	x.onLock = func(st *State, cls string, idx []*Term, acquire bool) {
		for _, g := range gs {
			if acquire && cls == g.lock.cls {
				x.bump(st, "$acquired")
			}
		}
	}
}

func first(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// lemma checks a statement about contract-level definitions, for all values of its parameters.
func (x *Exec) lemma(ct *Contract) {
	x.target = ct.name
	x.spec = &SpecEnv{pkg: ct.pkg}
	st := newState()
	x.use(st)
	vars := map[string]Val{}
	for _, p := range ct.params {
		v := x.c.Var("l."+p, SInt)
		vars[p] = v
		x.wanted[p] = v
	}
	sc := &scope{x: x, st: st, vars: vars, pkg: ct.pkg}
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires", "assume", "domain":
			x.assume(st, sc.term(cl.expr), false)
		case "let":
			vars[cl.name] = sc.eval(cl.expr)
		case "ensures":
			x.oblige(st, cl.props, "lemma: "+first(cl.label, cl.src), token.NoPos, sc.term(cl.expr))
		}
	}
	x.reach(st, "lemma hypotheses satisfiable")
}

// reach records a satisfiability check (vacuity): some path must be feasible.
func (x *Exec) reach(st *State, name string) {
	if x.dry > 0 {
		return
	}
	x.reaches = append(x.reaches, &Obligation{Target: x.target, Name: name, pc: x.pcTerms(st)})
}

func (x *Exec) callFnTop(st *State, fn *ssa.Function, args []Val, k func(*State, []Val)) {
	x.callFn(st, fn, args, nil, k)
}

// paramVal is an arbitrary argument.
func (x *Exec) paramVal(st *State, ct *Contract, i int, t types.Type) Val {
	n := fmt.Sprintf("arg%d", i)
	if i < len(ct.params) {
		n = ct.params[i]
	}
	c := x.c
	for _, o := range strings.Fields(ct.opts["cell"]) {
		if pt, ok := t.Underlying().(*types.Pointer); ok && o == n {
			// a local variable of the caller; a slice may be appended to in place
			ct2 := *ct
			ct2.opts = map[string]string{}
			v := x.paramVal(st, &ct2, i, pt.Elem())
			if sl, ok := v.(*VSlice); ok {
				x.assume(st, c.Eq(x.rdHeap(st, "$frontier", []*Term{sl.arr}, SInt), c.Add(sl.off, sl.len)), false)
				x.assume(st, c.Not(c.Eq(sl.arr, c.Int(0))), false)
				x.wrHeap(st, "$frontier", []*Term{sl.arr}, SInt, c.Add(sl.off, sl.len))
			}
			return x.newCell(st, v, pt.Elem())
		}
	}
	return x.decode(t, func(suf string, s Sort) *Term {
		v := c.Var("p."+sanitize(n+suf), s)
		if s == SInt {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
				x.factRange(v, big.NewInt(0), big.NewInt(1<<40-1))
			case *types.Interface:
				if suf == ".tag" {
					x.factRange(v, big.NewInt(0), nil)
				}
			}
		}
		return v
	})
}

var setups = map[string]func(x *Exec, st *State, ct *Contract, vars map[string]Val){}
var modes = map[string]func(x *Exec, st *State, ct *Contract, vars map[string]Val){}
var finals = map[string]func(x *Exec, st *State, ct *Contract, post *scope, rs []Val){}

// clientCall applies a contract at a call site in another package. With "option client quiet" the caller learns
// nothing: what the function changes is the state of its own package, which no other contract reads.
func (x *Exec) clientCall(ct *Contract, fn *ssa.Function, st *State, args []Val, pos token.Pos, k func(*State, []Val)) {
	c := x.c
	x.use(st)
	if x.guard != nil {
		x.guard(st, "call:"+ct.name, nil, true)
	}
	vars := x.bindParams(ct, fn, args)
	pre := st.clone()
	sc := &scope{x: x, st: pre, old: pre, vars: vars, pkg: ct.pkg}
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires":
			if ct.opts["abstract-requires"] != "" || mentionsImpl(cl) {
				continue
			}
			g := sc.term(cl.expr)
			x.use(st)
			x.safe(st, "precondition of "+ct.name+": "+cl.src, pos, g)
		case "domain":
			if mentionsImpl(cl) {
				continue
			}
			g := sc.term(cl.expr)
			x.use(st)
			x.assume(st, g, false)
		case "let":
			vars[cl.name] = sc.eval(cl.expr)
		}
	}
	x.use(st)
	var rs []Val
	res := fn.Signature.Results()
	alloc := map[string]bool{}
	for _, cl := range ct.clauses {
		if cl.kind == "allocates" {
			alloc[cl.name] = true
		}
	}
	for i := 0; i < res.Len(); i++ {
		n := fmt.Sprintf("r%d", i)
		if i < len(ct.results) {
			n = ct.results[i]
		}
		var v Val
		if def := defining(ct, n); def != nil && !alloc[n] {
			ps := &scope{x: x, st: pre, old: pre, vars: vars, pkg: ct.pkg}
			v = ps.term(def)
			x.use(st)
		} else if alloc[n] {
			v = x.ptrFromRef(res.At(i).Type().Underlying().(*types.Pointer).Elem(), x.newRef())
		} else {
			v = x.freshVal(st, "res."+ct.name, res.At(i).Type())
		}
		rs = append(rs, v)
		vars[n] = v
	}
	// new values of the abstract state
	type asg struct {
		key string
		idx []*Term
		so  Sort
		v   *Term
	}
	var as []asg
	for _, cl := range ct.clauses {
		if cl.kind != "sets" {
			continue
		}
		call, ok := cl.lhs.(*ast.CallExpr)
		if !ok {
			x.unsupported("sets %s", exprStr(cl.lhs))
		}
		ps := &scope{x: x, st: pre, old: pre, vars: vars, pkg: ct.pkg}
		v := ps.term(cl.expr)
		d := ps.def(exprStr(call.Fun))
		if d == nil || !d.ghost {
			if d != nil {
				continue // a concrete definition: nothing abstract to set
			}
			x.unsupported("sets of %s", exprStr(cl.lhs))
		}
		var av []Val
		for _, a := range call.Args {
			av = append(av, ps.eval(a))
		}
		as = append(as, asg{"$" + d.name, ps.ghostIdx(av), d.sort(), v})
	}
	x.use(st)
	for k2, v := range pre.heap { // arrays first touched while evaluating
		if st.heap[k2] == nil {
			st.heap[k2] = v
		}
	}
	for _, a := range as {
		x.wrHeap(st, a.key, a.idx, a.so, a.v)
	}
	post := &scope{x: x, st: st, old: pre, vars: vars, pkg: ct.pkg}
	for _, cl := range ct.clauses {
		if cl.kind == "ensures" && ct.opts["client"] != "quiet" && !mentionsImpl(cl) {
			g := post.term(cl.expr)
			x.use(st)
			x.assume(st, g, false)
		}
	}
	_ = c
	if st.dead {
		return
	}
	k(st, rs)
}

// modularCall applies a contract inside its own package: the requirements are obligations, what it
// modifies becomes arbitrary, the ensured facts are assumed.
func (x *Exec) modularCall(ct *Contract, fn *ssa.Function, st *State, args []Val, pos token.Pos, k func(*State, []Val)) {
	c := x.c
	x.use(st)
	g0 := x.guard
	x.guard = nil
	vars := x.bindParams(ct, fn, args)
	for n, v := range x.anys {
		if vars[n] == nil {
			vars[n] = v
		}
	}
	pre := st.clone()
	sc := &scope{x: x, st: pre, old: pre, vars: vars, pkg: ct.pkg, impl: true}
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires":
			g := sc.term(cl.expr)
			x.use(st)
			x.oblige(st, x.safety, "precondition of "+ct.name+": "+cl.src, pos, g)
		case "domain":
			g := sc.term(cl.expr)
			x.use(st)
			x.assume(st, g, false)
		case "let":
			vars[cl.name] = sc.eval(cl.expr)
		}
	}
	x.use(st)
	for k2, v := range pre.heap {
		if st.heap[k2] == nil {
			st.heap[k2] = v
		}
	}
	slice := func(f string) (*VPtr, Val) {
		b, fl, _ := strings.Cut(f, ".")
		p := vars[b].(*VPtr)
		if fl == "" {
			return p, x.load(st, p, pos)
		}
		stt := p.elem.Underlying().(*types.Struct)
		for j := 0; j < stt.NumFields(); j++ {
			if stt.Field(j).Name() == fl {
				fp := x.field(p, stt, j)
				return fp, x.load(st, fp, pos)
			}
		}
		x.unsupported("modular call of %s: no field %s", ct.name, f)
		return nil, nil
	}
	ap := strings.Fields(ct.opts["apart"])
	for i, f := range ap {
		_, a := slice(f)
		for _, g := range ap[:i] {
			_, b := slice(g)
			x.oblige(st, x.safety, "separate storage for "+ct.name+": "+g+", "+f, pos, c.Not(c.Eq(a.(*VSlice).arr, b.(*VSlice).arr)))
		}
	}
	for _, f := range strings.Fields(ct.opts["modifies"]) {
		p, v := slice(f)
		if sl, ok := v.(*VSlice); ok {
			n := c.Fresh("len."+sanitize(f), SInt)
			x.factRange(n, big.NewInt(0), maxLen)
			x.store(st, p, &VSlice{sl.elem, x.newRef(), c.Int(0), n, n}, pos)
			continue
		}
		x.store(st, p, x.freshVal(st, "mod."+sanitize(f), p.elem), pos)
	}
	var rs []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := x.freshVal(st, "res."+ct.name, res.At(i).Type())
		rs = append(rs, v)
		if i < len(ct.results) {
			vars[ct.results[i]] = v
		}
	}
	post := &scope{x: x, st: st, old: pre, vars: vars, pkg: ct.pkg, impl: true}
	for _, cl := range ct.clauses {
		if cl.kind == "ensures" {
			g := post.term(cl.expr)
			x.use(st)
			x.assume(st, g, false)
		}
	}
	x.guard = g0
	if st.dead {
		return
	}
	k(st, rs)
}

// frame: a function used through its contract changes nothing but what the contract names.
func (x *Exec) frame(st, pre *State, ct *Contract, vars map[string]Val) {
	c := x.c
	own := map[string][]*Term{}
	for _, f := range strings.Fields(ct.opts["modifies"]) {
		b, fl, _ := strings.Cut(f, ".")
		p := vars[b].(*VPtr)
		if fl == "" {
			continue
		}
		stt := p.elem.Underlying().(*types.Struct)
		for j := 0; j < stt.NumFields(); j++ {
			if stt.Field(j).Name() == fl {
				fp := x.field(p, stt, j)
				own[fp.cls] = append(own[fp.cls], x.refOf(p))
				if sl, ok := x.load(pre, fp, token.NoPos).(*VSlice); ok {
					own["[]"] = append(own["[]"], sl.arr)
				}
			}
		}
	}
	var ks []string
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	x.use(st)
	for _, k := range ks {
		h0, h := pre.heap[k], st.heap[k]
		if h0 == nil || h0 == h || strings.HasPrefix(k, "$") || !h.sort.isArr() {
			continue
		}
		r := c.Var("frame!r", SInt)
		conds := []*Term{c.Le(c.Int(0), r), c.Lt(r, c.BigInt(new(big.Int).Lsh(bigOne, 40)))}
		for cls, rs := range own {
			if cls == "[]" && strings.HasPrefix(k, "[]") || strings.HasPrefix(k, cls+".") || k == cls {
				for _, o := range rs {
					conds = append(conds, c.Not(c.Eq(r, o)))
				}
			}
		}
		x.oblige(st, x.safety, "nothing else is changed: "+k, token.NoPos, c.Imp(c.And(conds...), c.Eq(c.Select(h, r), c.Select(h0, r))))
	}
}

// defining finds a postcondition "n == e" that defines result n from the arguments and state.
func defining(ct *Contract, n string) ast.Expr {
	sets := false
	for _, cl := range ct.clauses {
		if cl.kind == "sets" && !strings.HasPrefix(cl.src, exprStr(cl.lhs)+" = "+exprStr(cl.lhs)) {
			sets = true
		}
	}
	if sets {
		return nil
	}
	for _, cl := range ct.clauses {
		if cl.kind != "ensures" || mentionsImpl(cl) {
			continue
		}
		b, ok := cl.expr.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL {
			continue
		}
		id, ok := b.X.(*ast.Ident)
		if !ok || id.Name != n {
			continue
		}
		bad := false
		ast.Inspect(b.Y, func(m ast.Node) bool {
			if i, ok := m.(*ast.Ident); ok {
				for _, r := range ct.results {
					bad = bad || i.Name == r
				}
				bad = bad || i.Name == "old"
			}
			return true
		})
		if !bad {
			return b.Y
		}
	}
	return nil
}

// mentionsImpl: clauses about the representation are invisible to clients; they are marked by
// using a definition whose name starts with an upper-case R followed by '_' (representation).
func mentionsImpl(cl clause) bool {
	if cl.expr == nil {
		return true
	}
	found := false
	ast.Inspect(cl.expr, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "R_") {
			found = true
		}
		return true
	})
	return found
}

// target is the function a contract speaks about: "f'variant" is another contract of f.
func (ct *Contract) target() string {
	n, _, _ := strings.Cut(ct.name, "'")
	return n
}

type purePath struct {
	st   *State
	val  *Term
	deps []*Term
}

// purity compares any two runs that agree on the dependencies.
func (x *Exec) purity(cl clause, ps []purePath) {
	c := x.c
	prime := map[*Term]*Term{}
	for i, p := range ps {
		x.use(p.st)
		sub := map[*Term]*Term{}
		for j, d := range p.deps {
			if !d.isInt() {
				sub[d] = c.Var(fmt.Sprintf("dep%d", j), d.sort)
			}
		}
		side := func(q purePath, second bool) ([]*Term, *Term) {
			m := map[*Term]*Term{}
			for k, v := range sub {
				m[k] = v
			}
			if second {
				m = map[*Term]*Term{}
				for j, d := range q.deps {
					if !d.isInt() {
						m[d] = c.Var(fmt.Sprintf("dep%d", j), d.sort)
					}
				}
			}
			do := func(t *Term) *Term {
				t = c.SubstMap(t, m)
				if second {
					t = c.rewrite(t, map[*Term]*Term{}, nil, func(u *Term) *Term {
						if u.op != "var" || strings.HasPrefix(u.name, "dep") {
							return nil
						}
						if prime[u] == nil {
							prime[u] = c.Var(u.name+"!2", u.sort)
						}
						return prime[u]
					})
				}
				return t
			}
			var pc []*Term
			for _, t := range x.pcTerms(q.st) {
				pc = append(pc, do(t))
			}
			return pc, do(q.val)
		}
		for j := i; j < len(ps); j++ {
			pc1, v1 := side(p, false)
			pc2, v2 := side(ps[j], true)
			s := newState()
			x.use(s)
			for _, t := range append(pc1, pc2...) {
				if t != c.Eq(v1, v2) {
					x.assume(s, t, false)
				}
			}
			if s.dead {
				continue
			}
			x.oblige(s, cl.props, "pure: "+first(cl.label, cl.src), token.NoPos, c.Eq(v1, v2))
		}
	}
}
