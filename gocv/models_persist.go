package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the persistence adapters need: calls into a collaborator that may answer anything (option
// open), and encoding/json of a plain struct.

// opens: NAME:GHOST pairs. $GHOST counts the calls and $GHOST.failed those that returned an error.
func (x *Exec) installOpens(ct *Contract) {
	opens := optTable(ct, "open")
	if len(opens) == 0 {
		return
	}
	prev := x.openCall
	x.openCall = func(st *State, name string, results *types.Tuple, k func(*State, []Val)) bool {
		n := normName(name)
		for m, g := range opens {
			if m != n && m != x.short(ct, n) {
				continue
			}
			x.used[n+" (results arbitrary)"] = true
			x.bump(st, "$"+strings.TrimSuffix(g, "!"))
			var rs []Val
			errAt := -1
			for i := 0; i < results.Len(); i++ {
				if types.Identical(results.At(i).Type(), types.Universe.Lookup("error").Type()) {
					errAt = i
					rs = append(rs, nil)
					continue
				}
				rs = append(rs, x.freshVal(st, "open."+g, results.At(i).Type()))
			}
			made := strings.HasSuffix(g, "!")
			g = strings.TrimSuffix(g, "!")
			x.openResult(st, g, rs, made && errAt < 0)
			if errAt < 0 {
				k(st, rs)
				return true
			}
			x.errForks(st, g, func(s *State, e Val) {
				r := append([]Val(nil), rs...)
				r[errAt] = e
				if tag, pay := x.ifaceTerms(e.(*VIface)); !tag.isInt() {
					x.bump(s, "$"+g+".failed")
					x.wrHeap(s, "$"+g+".errtag", nil, SInt, tag)
					x.wrHeap(s, "$"+g+".errpay", nil, SInt, pay)
				} else {
					x.openResult(s, g, rs, made)
				}
				k(s, r)
			})
			return true
		}
		return prev != nil && prev(st, name, results, k)
	}
}

func optTable(ct *Contract, o string) map[string]string {
	m := map[string]string{}
	for _, f := range strings.Fields(ct.opts[o]) {
		i := strings.LastIndex(f, ":")
		m[f[:i]] = f[i+1:]
	}
	return m
}

func (x *Exec) short(ct *Contract, name string) string {
	inv := strings.HasPrefix(name, "invoke:")
	n := strings.TrimPrefix(name, "invoke:")
	for _, p := range []string{ct.pkg + ".", "vsa/internal/ratelimiter/", "vsa/"} {
		if r, ok := strings.CutPrefix(n, p); ok {
			n = r
			break
		}
	}
	if inv {
		return "invoke:" + n
	}
	return n
}

// A JSON object is a term json:LAYOUT over its field values; LAYOUT names the fields in order,
// "f?" for one that may be absent (two values then: present, value).
func (x *Exec) jsonObject(st *State, v Val, t types.Type, pos token.Pos) *Term {
	c := x.c
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = x.load(st, v.(*VPtr), pos)
	}
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		x.unsupported("json of %s", t)
	}
	var lay []string
	var ts []*Term
	x.jsonFields(st, "", stt, v.(*VStruct), &lay, &ts)
	return c.App("json:"+strings.Join(lay, ","), SInt, ts...)
}

// jsonPlain: no type in t decides its own encoding.
func (x *Exec) jsonPlain(t types.Type) {
	for _, m := range []string{"MarshalJSON", "MarshalText", "UnmarshalJSON", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m); o != nil {
			x.unsupported("json of %s, which has %s", t, m)
		}
	}
}

func jsonName(stt *types.Struct, i int) (name, rest string, skip bool) {
	name, rest, _ = strings.Cut(reflect.StructTag(stt.Tag(i)).Get("json"), ",")
	f := stt.Field(i)
	if reflect.StructTag(stt.Tag(i)).Get("json") == "-" || !f.Exported() {
		return "", "", true
	}
	if name == "" {
		name = f.Name()
	}
	return name, rest, false
}

// jsonFields lists the fields of an object, nested ones as A.B and elements as A[i].
func (x *Exec) jsonFields(st *State, pre string, stt *types.Struct, v *VStruct, lay *[]string, ts *[]*Term) {
	c := x.c
	x.jsonPlain(v.typ)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		name, rest, skip := jsonName(stt, i)
		if skip {
			continue
		}
		fv := v.fields[i]
		bt := f.Type()
		x.jsonPlain(bt)
		omit := strings.Contains(","+rest+",", ",omitempty,")
		if f.Embedded() || strings.Contains(rest, "string") || strings.Contains(rest, "omitzero") {
			x.unsupported("json of %s", bt)
		}
		switch u := bt.Underlying().(type) {
		case *types.Basic:
			w, ok := fv.(*Term)
			if !ok || u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) == 0 {
				x.unsupported("json of %s", bt)
			}
			if omit {
				z := x.zero(bt).(*Term)
				*lay = append(*lay, pre+name+"?")
				*ts = append(*ts, c.Ite(c.Ne(w, z), c.Int(1), c.Int(0)), asInt(c, w))
			} else {
				*lay = append(*lay, pre+name)
				*ts = append(*ts, asInt(c, w))
			}
		case *types.Pointer:
			p := fv.(*VPtr)
			set := c.Ne(x.refOf(p), c.Int(0))
			x.inSpec++
			w, ok := x.load(st, p, token.NoPos).(*Term)
			x.inSpec--
			if !ok || w.sort != SInt {
				x.unsupported("json of %s", bt)
			}
			*lay = append(*lay, pre+name+"?")
			*ts = append(*ts, c.Ite(set, c.Int(1), c.Int(0)), w)
		case *types.Struct:
			if _, sp := specialLeaves(bt); sp {
				x.unsupported("json of %s", bt)
			}
			x.jsonFields(st, pre+name+".", u, fv.(*VStruct), lay, ts)
		case *types.Array:
			for n, e := range fv.(*VArr).elems {
				w, ok := e.(*Term)
				if !ok || omit {
					x.unsupported("json of %s", bt)
				}
				*lay = append(*lay, fmt.Sprintf("%s%s[%d]", pre, name, n))
				*ts = append(*ts, asInt(c, w))
			}
		default:
			x.unsupported("json of %s", bt)
		}
	}
}

func asInt(c *Ctx, t *Term) *Term {
	if t.sort == SBool {
		return c.Ite(t, c.Int(1), c.Int(0))
	}
	return t
}

// jsonDecode decodes a line into a value that held prev: whether it can be decoded, and the value. A
// line of which nothing is known is decodable or not; its fields are functions of it.
func (x *Exec) jsonDecode(o *Term, t types.Type, prev Val) (*Term, Val) {
	c := x.c
	known := o.op == "app" && strings.HasPrefix(o.name, "json:")
	ok := c.Bool(true)
	if !known {
		ok = c.App("json.ok:"+className(t), SBool, o)
	}
	get := func(path string, bt types.Type, prev *Term) *Term {
		var has, v *Term
		if known {
			var err error
			if has, v, err = jsonField(c, o, path); err != nil {
				x.unsupported("%v", err)
			}
			for _, n := range strings.Split(o.name[5:], ",") {
				if n = strings.TrimSuffix(n, "?"); n != path && strings.EqualFold(n, path) {
					x.unsupported("json names %s and %s", n, path)
				}
			}
		} else {
			has = c.App("json.has:"+path, SBool, o)
			v = c.App("json.val:"+path, SInt, o)
			if k := basicKind(bt); k != "bool" && k != "string" && k != "float" && k != "" && k != "ptr" {
				x.rangeFact(v, k)
			}
		}
		if prev.sort == SBool {
			v = c.Eq(v, c.Int(1))
		}
		return c.Ite(has, v, prev)
	}
	var dec func(pre string, t types.Type, prev Val) Val
	dec = func(pre string, t types.Type, prev Val) Val {
		x.jsonPlain(t)
		switch u := t.Underlying().(type) {
		case *types.Basic:
			p, ok := prev.(*Term)
			if !ok || u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) == 0 {
				x.unsupported("json of %s", t)
			}
			return get(pre, t, p)
		case *types.Struct:
			if _, sp := specialLeaves(t); sp {
				x.unsupported("json of %s", t)
			}
			p := prev.(*VStruct)
			fs := append([]Val(nil), p.fields...)
			for i := range fs {
				name, rest, skip := jsonName(u, i)
				if skip {
					continue
				}
				if u.Field(i).Embedded() || strings.Contains(rest, "string") {
					x.unsupported("json of %s", t)
				}
				q := name
				if pre != "" {
					q = pre + "." + name
				}
				fs[i] = dec(q, u.Field(i).Type(), fs[i])
			}
			return &VStruct{p.typ, fs}
		case *types.Array:
			p := prev.(*VArr)
			es := append([]Val(nil), p.elems...)
			for i := range es {
				es[i] = dec(fmt.Sprintf("%s[%d]", pre, i), u.Elem(), es[i])
			}
			return &VArr{p.elem, es}
		}
		x.unsupported("json of %s", t)
		return nil
	}
	return ok, dec("", t, prev)
}

// jsonField finds a field of an object: whether it is there, and its value.
func jsonField(c *Ctx, o *Term, f string) (*Term, *Term, error) {
	if o.op != "app" || !strings.HasPrefix(o.name, "json:") {
		return nil, nil, fmt.Errorf("not a known JSON object")
	}
	i := 0
	for _, n := range strings.Split(o.name[5:], ",") {
		if m, opt := strings.CutSuffix(n, "?"); opt {
			if m == f {
				return c.Eq(o.args[i], c.Int(1)), o.args[i+1], nil
			}
			i += 2
			continue
		}
		if n == f {
			return c.Bool(true), o.args[i], nil
		}
		i++
	}
	return c.Bool(false), c.Int(0), nil
}

func init() {
	m0("encoding/json.Marshal", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv := a[0].(*VIface)
		if iv.dyn == nil {
			x.unsupported("json of an unknown value")
		}
		v := iv.val
		if v == nil {
			v = x.unpay(iv.dyn, iv.pay)
		}
		x.used["encoding/json.Marshal (assumed: a struct of strings and integers is encoded without error and decodes to the same values; strings are valid UTF-8)"] = true
		o := x.jsonObject(st, v, iv.dyn, pos)
		k(st, []Val{x.stringToBytes(st, o, types.Typ[types.Uint8]), &VIface{}})
	})
	// crypto/rand: the d-th draw of at least 128 bits is random(d); assumed never to repeat
	m0("crypto/rand.Read", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		b := a[0].(*VSlice)
		h := x.heapArr(st, "[]"+className(b.elem), 2, SInt)
		if b.off.isInt() && b.off.n.Sign() == 0 && b.len.isInt() && b.len.n.Int64() >= 16 && b.cap == b.len {
			x.used["crypto/rand.Read (assumed: never fails, and draws of 16 bytes or more never repeat)"] = true
			d := x.rdHeap(st, "$draws", nil, SInt)
			st.heap["[]"+className(b.elem)] = c.Store(h, b.arr, c.App("random", arrSort(SInt, SInt), d))
			x.wrHeap(st, "$draws", nil, SInt, c.Add(d, c.Int(1)))
		} else {
			x.used["crypto/rand.Read (assumed: never fails)"] = true
			st.heap["[]"+className(b.elem)] = c.Store(h, b.arr, c.Fresh("rand", arrSort(SInt, SInt)))
		}
		k(st, []Val{b.len, &VIface{}})
	})
	hexed := func(x *Exec, st *State, src *VSlice) *Term {
		c := x.c
		x.used["encoding/hex (assumed: different inputs give different encodings)"] = true
		return c.App("hexof", arrSort(SInt, SInt), c.Select(x.heapArr(st, "[]"+className(src.elem), 2, SInt), src.arr), src.off, src.len)
	}
	m0("encoding/hex.Encode", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		dst, src := a[0].(*VSlice), a[1].(*VSlice)
		n := c.Mul(c.Int(2), src.len)
		x.safe(st, "hex.Encode within the slice", pos, c.Ge(dst.len, n))
		cls := "[]" + className(dst.elem)
		h := x.heapArr(st, cls, 2, SInt)
		if dst.off.isInt() && dst.off.n.Sign() == 0 && dst.len == n {
			st.heap[cls] = c.Store(h, dst.arr, hexed(x, st, src))
		} else {
			st.heap[cls] = c.Store(h, dst.arr, c.Fresh("hex", arrSort(SInt, SInt)))
		}
		k(st, []Val{n})
	})
	m0("encoding/hex.EncodeToString", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		src := a[0].(*VSlice)
		k(st, []Val{c.App("strof", SInt, hexed(x, st, src), c.Int(0), c.Mul(c.Int(2), src.len))})
	})
}

// strRule: what is known of a string made from bytes.
func strRule(c *Ctx, t *Term) *Term {
	content, off, n := t.args[0], t.args[1], t.args[2]
	f := c.Imp(c.Ge(n, c.Int(0)), c.Eq(c.App("strlen", SInt, t), n))
	if content.op == "app" && content.name == "hexof" && off.isInt() && off.n.Sign() == 0 && n.isInt() {
		src, so, sn := content.args[0], content.args[1], content.args[2]
		if src.op == "app" && src.name == "random" && so.isInt() && so.n.Sign() == 0 && sn.isInt() && sn.n.Int64() >= 16 && n.n.Int64() == 2*sn.n.Int64() {
			f = c.And(f, c.Eq(c.App("serial", SInt, t), src.args[0]))
		}
	}
	return f
}

// catRule: a concatenation with one unknown piece determines that piece; and the first characters
// are those of its first piece.
func catRule(c *Ctx, t *Term) *Term {
	at, unknown := -1, 0
	key := ""
	for i, a := range t.args {
		if s, ok := c.strVal[a]; ok {
			key += strconv.Quote(s)
			continue
		}
		unknown++
		at = i
		key += "*"
	}
	f := c.Bool(true)
	if unknown == 1 {
		if c.cutIDs == nil {
			c.cutIDs = map[string]int{}
		}
		n, ok := c.cutIDs[key]
		if !ok {
			n = len(c.cutIDs)
			c.cutIDs[key] = n
		}
		p := c.mk("app", SInt, fmt.Sprintf("cut.%d", n), nil, nil, t)
		f = c.mk("eq", SBool, "", nil, nil, p, t.args[at])
	}
	if s, ok := c.strVal[t.args[0]]; ok {
		for i := 1; i <= len(s) && i <= 8; i++ {
			p := c.mk("app", SInt, fmt.Sprintf("head.%d", i), nil, nil, t)
			f = c.And(f, c.mk("eq", SBool, "", nil, nil, p, c.Str(s[:i])))
		}
	}
	return f
}

// openResult: $GHOST.result is what an opened constructor returned; with GHOST! it is not nil, as the
// constructor's own contract says of a call without error.
func (x *Exec) openResult(st *State, g string, rs []Val, made bool) {
	if len(rs) == 0 || rs[0] == nil {
		return
	}
	var p, nz *Term
	switch v := rs[0].(type) {
	case *VPtr:
		p = x.refOf(v)
		nz = p
	case *VIface:
		nz, p = x.ifaceTerms(v)
	default:
		return
	}
	if made {
		x.assume(st, x.c.Not(x.c.Eq(nz, x.c.Int(0))), false)
	}
	x.wrHeap(st, "$"+g+".result", nil, SInt, p)
}
