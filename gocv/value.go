package main

// Symbolic values, the heap layout of Go types, and the machine state.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VPtr struct {
	cls  string  // heap class path; "" for a cell pointer
	idx  []*Term // object ref, and element index for slice backings
	elem types.Type
	cell int   // cell pointer
	path []int // field path inside the cell
	arrN int64 // >0: pointer to an array kept as a slice backing
}
type VSlice struct {
	elem               types.Type
	arr, off, len, cap *Term
}
type VStruct struct {
	typ    types.Type
	fields []Val
}
type VArr struct {
	elem  types.Type
	elems []Val
}
type VIface struct {
	tag, pay *Term
	dyn      types.Type
	val      Val
}
type VFunc struct {
	fn    *ssa.Function
	binds []Val
	ref   *Term // opaque function value when fn == nil
	sig   *types.Signature
	model func(x *Exec, st *State, args []Val, k func(*State, []Val))
}
type VTuple []Val

// VSpecial is a value of a library type with its own leaves (mutexes, atomics, sync.Map ...).
type VSpecial struct {
	typ types.Type
	m   map[string]*Term
}

type leafSpec struct {
	suf  string
	sort Sort
	zero func(c *Ctx) *Term
}

func zInt(c *Ctx) *Term  { return c.Int(0) }
func zBool(c *Ctx) *Term { return c.Bool(false) }

// specialLeaves describes library types treated as primitives.
func specialLeaves(t types.Type) ([]leafSpec, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch full {
	case "sync.Mutex":
		return []leafSpec{{".held", SInt, zInt}}, true
	case "sync.RWMutex":
		return []leafSpec{{".held", SInt, zInt}, {".readers", SInt, zInt}}, true
	case "sync.Once":
		return []leafSpec{{".done", SBool, zBool}}, true
	case "sync.WaitGroup":
		return []leafSpec{{".n", SInt, zInt}}, true
	case "sync/atomic.Int64", "sync/atomic.Int32", "sync/atomic.Uint64", "sync/atomic.Uint32":
		return []leafSpec{{"", SInt, zInt}}, true
	case "sync/atomic.Bool":
		return []leafSpec{{"", SBool, zBool}}, true
	case "sync/atomic.Pointer":
		return []leafSpec{{"", SInt, zInt}}, true
	case "sync/atomic.Value":
		return []leafSpec{{".tag", SInt, zInt}, {".pay", SInt, zInt}}, true
	case "time.Time":
		return []leafSpec{{"", SInt, zInt}}, true
	case "sync.Map":
		z := func(s Sort, v func(c *Ctx) *Term) func(c *Ctx) *Term {
			return func(c *Ctx) *Term { return c.ConstArr(s, v(c)) }
		}
		ib, ii := arrSort(SInt, SBool), arrSort(SInt, SInt)
		return []leafSpec{{".dom", ib, z(ib, zBool)}, {".vtag", ii, z(ii, zInt)}, {".vpay", ii, z(ii, zInt)}}, true
	case "sync.Pool":
		return []leafSpec{{".pool", SInt, zInt}}, true
	case "strings.Builder", "bytes.Buffer":
		return []leafSpec{{".s", SInt, zInt}}, true
	}
	if !strings.HasPrefix(n.Obj().Pkg().Path(), "vsa") {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return []leafSpec{{".opaque", SInt, zInt}}, true
		}
	}
	return nil, false
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func className(t types.Type) string {
	s := typeName(t)
	return strings.ReplaceAll(s, " ", "_")
}

func basicKind(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int, types.Int64, types.UntypedInt:
			return "s64"
		case types.Int32, types.UntypedRune:
			return "s32"
		case types.Int16:
			return "s16"
		case types.Int8:
			return "s8"
		case types.Uint, types.Uint64, types.Uintptr:
			return "u64"
		case types.Uint32:
			return "u32"
		case types.Uint16:
			return "u16"
		case types.Uint8:
			return "u8"
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.String, types.UntypedString:
			return "string"
		case types.Float64, types.Float32, types.UntypedFloat:
			return "float"
		case types.UnsafePointer, types.UntypedNil:
			return "ptr"
		}
	}
	return ""
}
func sortOf(t types.Type) Sort {
	if basicKind(t) == "bool" {
		return SBool
	}
	return SInt
}

const maxFlat = 32

type rdFn func(suf string, s Sort) *Term
type wrFn func(suf string, s Sort, t *Term)

// decode builds a value of type t from its heap leaves.
func (x *Exec) decode(t types.Type, rd rdFn) Val {
	if ls, ok := specialLeaves(t); ok {
		if len(ls) == 1 && ls[0].suf == "" && (ls[0].sort == SInt || ls[0].sort == SBool) && typeName(t) == "time.Time" {
			return rd("", SInt)
		}
		m := map[string]*Term{}
		for _, l := range ls {
			m[l.suf] = rd(l.suf, l.sort)
		}
		return &VSpecial{t, m}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v := rd("", sortOf(t))
		if k := basicKind(t); k != "bool" && k != "string" && k != "float" && k != "" && k != "ptr" {
			x.rangeFact(v, k)
		}
		return v
	case *types.Pointer:
		r := rd("", SInt)
		return x.ptrFromRef(u.Elem(), r)
	case *types.Slice:
		s := &VSlice{elem: u.Elem(), arr: rd(".arr", SInt), off: rd(".off", SInt), len: rd(".len", SInt), cap: rd(".cap", SInt)}
		x.sliceFacts(s)
		return s
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			fs[i] = x.decode(f.Type(), func(suf string, s Sort) *Term { return rd("."+f.Name()+suf, s) })
		}
		return &VStruct{t, fs}
	case *types.Array:
		if u.Len() > maxFlat {
			x.unsupported("array of length %d", u.Len())
		}
		es := make([]Val, u.Len())
		for i := range es {
			es[i] = x.decode(u.Elem(), func(suf string, s Sort) *Term { return rd(fmt.Sprintf("[%d]%s", i, suf), s) })
		}
		return &VArr{u.Elem(), es}
	case *types.Interface:
		return x.mkIface(rd(".tag", SInt), rd(".pay", SInt))
	case *types.Map, *types.Chan:
		return rd("", SInt)
	case *types.Signature:
		return x.funcFromRef(rd("", SInt), u)
	}
	x.unsupported("decode %s", t)
	return nil
}

func (x *Exec) ptrFromRef(elem types.Type, r *Term) *VPtr {
	if a, ok := elem.Underlying().(*types.Array); ok {
		if _, sp := specialLeaves(elem); !sp {
			return &VPtr{cls: "[]" + className(a.Elem()), idx: []*Term{r}, elem: elem, arrN: a.Len()}
		}
	}
	return &VPtr{cls: className(elem), idx: []*Term{r}, elem: elem}
}

func (x *Exec) funcFromRef(r *Term, sig *types.Signature) Val {
	if r.isInt() {
		if f, ok := x.funcTab[r.n.Int64()]; ok {
			return f
		}
	}
	return &VFunc{ref: r, sig: sig}
}

// encode writes value v of type t to its leaves.
func (x *Exec) encode(t types.Type, v Val, wr wrFn) {
	if ls, ok := specialLeaves(t); ok {
		if tm, ok := v.(*Term); ok {
			wr("", SInt, tm)
			return
		}
		sp := v.(*VSpecial)
		for _, l := range ls {
			wr(l.suf, l.sort, sp.m[l.suf])
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		wr("", sortOf(t), v.(*Term))
		return
	case *types.Pointer:
		wr("", SInt, x.refOf(v))
		return
	case *types.Slice:
		s := v.(*VSlice)
		wr(".arr", SInt, s.arr)
		wr(".off", SInt, s.off)
		wr(".len", SInt, s.len)
		wr(".cap", SInt, s.cap)
		return
	case *types.Struct:
		sv := v.(*VStruct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			x.encode(f.Type(), sv.fields[i], func(suf string, s Sort, tm *Term) { wr("."+f.Name()+suf, s, tm) })
		}
		return
	case *types.Array:
		av := v.(*VArr)
		for i := range av.elems {
			x.encode(u.Elem(), av.elems[i], func(suf string, s Sort, tm *Term) { wr(fmt.Sprintf("[%d]%s", i, suf), s, tm) })
		}
		return
	case *types.Interface:
		iv := v.(*VIface)
		tag, pay := x.ifaceTerms(iv)
		wr(".tag", SInt, tag)
		wr(".pay", SInt, pay)
		return
	case *types.Map, *types.Chan:
		wr("", SInt, v.(*Term))
		return
	case *types.Signature:
		wr("", SInt, x.funcRef(v.(*VFunc)))
		return
	}
	x.unsupported("encode %s", t)
}

func (x *Exec) funcRef(f *VFunc) *Term {
	if f.fn == nil && f.model == nil {
		if f.ref == nil {
			return x.c.Int(0)
		}
		return f.ref
	}
	for id, g := range x.funcTab {
		if g == f {
			return x.c.Int(id)
		}
	}
	id := int64(len(x.funcTab) + 1000)
	x.funcTab[id] = f
	return x.c.Int(id)
}

func (x *Exec) refOf(v Val) *Term {
	switch p := v.(type) {
	case *VPtr:
		if p.cls == "" {
			x.unsupported("pointer to a local stored in memory")
		}
		if len(p.idx) == 1 && (p.cls == className(p.elem) || p.arrN > 0) {
			return p.idx[0]
		}
		// interior pointer: an injective code
		if len(p.idx) == 1 {
			return x.c.App("inj.ptr."+p.cls, SInt, p.idx[0])
		}
		return x.c.App("inj.ptr2."+p.cls, SInt, p.idx...)
	case *Term:
		return p
	}
	x.unsupported("refOf %T", v)
	return nil
}

func (x *Exec) zero(t types.Type) Val {
	if ls, ok := specialLeaves(t); ok {
		if typeName(t) == "time.Time" {
			return x.c.Int(zeroTime)
		}
		m := map[string]*Term{}
		for _, l := range ls {
			m[l.suf] = l.zero(x.c)
		}
		return &VSpecial{t, m}
	}
	c := x.c
	var zero func(s Sort) *Term
	zero = func(s Sort) *Term {
		switch {
		case s == SBool:
			return c.Bool(false)
		case s.isArr():
			_, vs := s.keyVal()
			return c.ConstArr(s, zero(vs))
		}
		return c.Int(0)
	}
	return x.decodeRaw(t, func(suf string, s Sort) *Term { return zero(s) })
}

// zeroTime is the nanosecond code of the zero time.Time (far in the past).
const zeroTime = -(1 << 62)

// decodeRaw is decode without attaching facts.
func (x *Exec) decodeRaw(t types.Type, rd rdFn) Val {
	o := x.noFacts
	x.noFacts = true
	v := x.decode(t, func(suf string, s Sort) *Term {
		return rd(suf, s)
	})
	x.noFacts = o
	return v
}

// flatten lists the leaf terms of a value; unflatten rebuilds a value of the same shape.
func (x *Exec) flatten(v Val) []*Term {
	switch v := v.(type) {
	case nil:
		return nil
	case *Term:
		return []*Term{v}
	case *VSlice:
		return []*Term{v.arr, v.off, v.len, v.cap}
	case *VStruct:
		var r []*Term
		for _, f := range v.fields {
			r = append(r, x.flatten(f)...)
		}
		return r
	case *VArr:
		var r []*Term
		for _, f := range v.elems {
			r = append(r, x.flatten(f)...)
		}
		return r
	case VTuple:
		var r []*Term
		for _, f := range v {
			r = append(r, x.flatten(f)...)
		}
		return r
	case *VIface:
		a, b := x.ifaceTerms(v)
		return []*Term{a, b}
	case *VPtr:
		return v.idx
	case *VFunc:
		return []*Term{x.funcRef(v)}
	case *VSpecial:
		var ks []string
		for k := range v.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []*Term
		for _, k := range ks {
			r = append(r, v.m[k])
		}
		return r
	}
	x.unsupported("flatten %T", v)
	return nil
}
func (x *Exec) unflatten(v Val, ts []*Term) Val {
	r, rest := x.unflat(v, ts)
	if len(rest) != 0 {
		x.unsupported("unflatten shape")
	}
	return r
}
func (x *Exec) unflat(v Val, ts []*Term) (Val, []*Term) {
	switch v := v.(type) {
	case nil:
		return nil, ts
	case *Term:
		return ts[0], ts[1:]
	case *VSlice:
		return &VSlice{v.elem, ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *VStruct:
		n := &VStruct{v.typ, make([]Val, len(v.fields))}
		for i, f := range v.fields {
			n.fields[i], ts = x.unflat(f, ts)
		}
		return n, ts
	case *VArr:
		n := &VArr{v.elem, make([]Val, len(v.elems))}
		for i, f := range v.elems {
			n.elems[i], ts = x.unflat(f, ts)
		}
		return n, ts
	case VTuple:
		n := make(VTuple, len(v))
		for i, f := range v {
			n[i], ts = x.unflat(f, ts)
		}
		return n, ts
	case *VIface:
		a, b := x.ifaceTerms(v)
		if a == ts[0] && b == ts[1] {
			return v, ts[2:]
		}
		return x.mkIface(ts[0], ts[1]), ts[2:]
	case *VPtr:
		n := *v
		n.idx = append([]*Term(nil), ts[:len(v.idx)]...)
		return &n, ts[len(v.idx):]
	case *VFunc:
		if x.funcRef(v) == ts[0] {
			return v, ts[1:]
		}
		return x.funcFromRef(ts[0], v.sig), ts[1:]
	case *VSpecial:
		var ks []string
		for k := range v.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n := &VSpecial{v.typ, map[string]*Term{}}
		for i, k := range ks {
			n.m[k] = ts[i]
		}
		return n, ts[len(ks):]
	}
	x.unsupported("unflat %T", v)
	return nil, nil
}

// ---------- interfaces ----------

func (x *Exec) tagOf(t types.Type) *Term {
	n := typeName(t)
	if id, ok := x.c.tagOf[n]; ok {
		return x.c.Int(int64(id))
	}
	id := len(x.c.tagOf) + 1
	x.c.tagOf[n] = id
	x.tagType[int64(id)] = t
	return x.c.Int(int64(id))
}
func (x *Exec) mkIface(tag, pay *Term) *VIface {
	iv := &VIface{tag: tag, pay: pay}
	if tag.isInt() && tag.n.Sign() > 0 {
		if t, ok := x.tagType[tag.n.Int64()]; ok {
			iv.dyn = t
		}
	}
	return iv
}
func (x *Exec) ifaceTerms(v *VIface) (*Term, *Term) {
	if v.tag != nil {
		return v.tag, v.pay
	}
	if v.dyn == nil {
		return x.c.Int(0), x.c.Int(0)
	}
	v.tag = x.tagOf(v.dyn)
	v.pay = x.payOf(v.dyn, v.val)
	return v.tag, v.pay
}

// payOf codes a value in one integer.
func (x *Exec) payOf(t types.Type, v Val) *Term {
	if tm, ok := v.(*Term); ok {
		if tm.sort == SBool {
			return x.c.Ite(tm, x.c.Int(1), x.c.Int(0))
		}
		return tm
	}
	switch w := v.(type) {
	case *VPtr:
		return x.refOf(w)
	case *VFunc:
		return x.funcRef(w)
	}
	ts := x.flatten(v)
	if len(ts) == 0 {
		return x.c.Int(0)
	}
	for i, tm := range ts {
		if tm.sort == SBool {
			ts[i] = x.c.Ite(tm, x.c.Int(1), x.c.Int(0))
		}
	}
	return x.c.App("inj.box."+className(t), SInt, ts...)
}
func (x *Exec) unpay(t types.Type, p *Term) Val {
	if _, sp := specialLeaves(t); !sp {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if basicKind(t) == "bool" {
				return x.c.Eq(p, x.c.Int(1))
			}
			if k := basicKind(t); k != "string" && k != "float" {
				x.rangeFact(p, k)
			}
			return p
		case *types.Pointer:
			return x.ptrFromRef(u.Elem(), p)
		case *types.Map, *types.Chan:
			return p
		case *types.Signature:
			return x.funcFromRef(p, u)
		}
	} else if typeName(t) == "time.Time" {
		return p
	}
	name := "inj.box." + className(t)
	shape := x.zero(t)
	ts := x.flatten(shape)
	out := make([]*Term, len(ts))
	for i := range ts {
		var a *Term
		if p.op == "app" && p.name == name {
			a = p.args[i]
		} else {
			a = x.c.App(fmt.Sprintf("prj%d.%s", i, name), SInt, p)
		}
		if ts[i].sort == SBool {
			a = x.c.Eq(a, x.c.Int(1))
		}
		out[i] = a
	}
	return x.unflatten(shape, out)
}

// keyTerm codes a map key.
func (x *Exec) keyTerm(t types.Type, v Val) *Term {
	switch t.Underlying().(type) {
	case *types.Interface:
		iv := v.(*VIface)
		_, p := x.ifaceTerms(iv)
		return p
	}
	return x.payOf(t, v)
}

// ---------- state ----------

type pcEntry struct {
	t      *Term
	branch bool
}

type Event struct {
	name string
	args []Val
	ts   []*Term
	st   *State // snapshot
}

type State struct {
	pc     []pcEntry
	pcset  map[*Term]bool
	heap   map[string]*Term
	cells  map[int]Val
	bounds *boundMap
	events []Event
	nspawn int
	lock   *lockInfo
	dead   bool
	fresh  map[string]int // per-path counters for fresh names
	nref   int64
	its    []*Term // iteration counters of the enclosing loops
	flags  []flagDef
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Term, len(s.heap)), cells: make(map[int]Val, len(s.cells)),
		bounds: s.bounds.clone(), events: s.events[:len(s.events):len(s.events)], nspawn: s.nspawn, pcset: make(map[*Term]bool, len(s.pcset)),
		fresh: make(map[string]int, len(s.fresh)), nref: s.nref, its: s.its, dead: s.dead, flags: s.flags[:len(s.flags):len(s.flags)]}
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k := range s.pcset {
		n.pcset[k] = true
	}
	if s.lock != nil {
		l := *s.lock
		n.lock = &l
	}
	return n
}

type lockInfo struct {
	count int
	held  bool
	pre   *State // state right after acquiring
	post  *State // state right before releasing
}

var bigOne = big.NewInt(1)
