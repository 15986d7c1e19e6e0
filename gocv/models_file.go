package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files written line by line. A file or buffered writer W has $cur(W), the text after its last
// newline, and for a buffered writer $unflushed(W) (1 when something was written since the last
// flush) and $broken(W) (1 once a write has failed, which the writer remembers). Files use $fcur.
// Events: log.open (path, append, truncate, exclusive), log.write (writer) before a write,
// log.line (writer, line) for every line completed, log.flush (writer) before a flush, log.close
// (file). A file that is read has app("fline", path, i) as its line i and app("flen", path) lines.
func init() {
	put := func(x *Exec, st *State, ghost string, w *Term, text *Term) {
		c := x.c
		cur := x.rdHeap(st, ghost, []*Term{w}, SInt)
		if _, not := x.decide(st, c.Eq(cur, c.Str(""))); !not {
			cur = c.Str("")
		}
		var parts []*Term
		t := x.cat(cur, text)
		if t.op == "app" && t.name == "strcat" {
			parts = t.args
		} else {
			parts = []*Term{t}
		}
		var line []*Term
		for _, p := range parts {
			s, ok := c.strVal[p]
			if !ok {
				if p != cur && !strings.HasPrefix(p.name, "json:") {
					x.unsupported("writing an unknown text to a log")
				}
				line = append(line, p)
				continue
			}
			for {
				h, rest, more := strings.Cut(s, "\n")
				line = append(line, c.Str(h))
				if !more {
					break
				}
				l := x.cat(line...)
				line = nil
				x.wrHeap(st, ghost, []*Term{w}, SInt, c.Str(""))
				x.event(st, "log.line", w, l)
				x.use(st)
				s = rest
			}
		}
		x.wrHeap(st, ghost, []*Term{w}, SInt, x.cat(append(line, c.Str(""))...))
	}
	write := func(x *Exec, st *State, w, text *Term, k func(*State, Val)) {
		c := x.c
		x.use(st)
		x.event(st, "log.write", w)
		x.use(st)
		at := []*Term{w}
		bad := func(s *State) {
			x.use(s)
			x.wrHeap(s, "$broken", at, SInt, c.Int(1))
			x.wrHeap(s, "$cur", at, SInt, c.Fresh("torn", SInt))
			k(s, x.freshErr("write"))
		}
		x.fork(st, c.Eq(x.rdHeap(st, "$broken", at, SInt), c.Int(0)), func(s *State) {
			x.fork(s, c.Fresh("ok.write", SBool), func(s *State) {
				x.use(s)
				put(x, s, "$cur", w, text)
				x.wrHeap(s, "$unflushed", at, SInt, c.Int(1))
				k(s, &VIface{})
			}, bad)
		}, func(s *State) { k(s, x.freshErr("broken")) })
	}
	self := func(x *Exec, v Val) *Term { return x.refOf(v) }
	m0("bufio.NewWriterSize bufio.NewWriter", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		iv := a[0].(*VIface)
		if iv.dyn == nil || typeName(iv.dyn) != "*os.File" {
			x.unsupported("a buffered writer onto something else than a file")
		}
		_, f := x.ifaceTerms(iv)
		r := x.newRef()
		x.wrHeap(st, "$cur", []*Term{r}, SInt, x.rdHeap(st, "$fcur", []*Term{f}, SInt))
		x.wrHeap(st, "$unflushed", []*Term{r}, SInt, c.Int(0))
		x.wrHeap(st, "$broken", []*Term{r}, SInt, c.Int(0))
		x.wrHeap(st, "$onto", []*Term{r}, SInt, f)
		k(st, []Val{x.ptrFromRef(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r)})
	})
	n0 := func(f modelFn, ns ...string) {
		for _, n := range ns {
			models[n] = f
		}
	}
	n0(func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		write(x, st, self(x, a[0]), x.bytesToString(st, a[1].(*VSlice)), func(s *State, e Val) { k(s, []Val{x.c.Fresh("written", SInt), e}) })
	}, "bufio.Writer.Write")
	n0(func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		write(x, st, self(x, a[0]), a[1].(*Term), func(s *State, e Val) { k(s, []Val{x.c.Fresh("written", SInt), e}) })
	}, "bufio.Writer.WriteString")
	n0(func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		b := a[1].(*Term)
		if !b.isInt() || b.n.Int64() >= 128 {
			x.unsupported("writing an unknown byte to a log")
		}
		write(x, st, self(x, a[0]), x.c.Str(string(rune(b.n.Int64()))), func(s *State, e Val) { k(s, []Val{e}) })
	}, "bufio.Writer.WriteByte")
	m0("bufio.Writer.Flush", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		w := []*Term{self(x, a[0])}
		x.use(st)
		x.event(st, "log.flush", w[0])
		x.use(st)
		x.fork(st, c.Eq(x.rdHeap(st, "$broken", w, SInt), c.Int(0)), func(s *State) {
			x.fork(s, c.Fresh("ok.flush", SBool), func(s *State) {
				x.use(s)
				x.wrHeap(s, "$unflushed", w, SInt, c.Int(0))
				k(s, []Val{&VIface{}})
			}, func(s *State) {
				x.use(s)
				x.wrHeap(s, "$broken", w, SInt, c.Int(1))
				k(s, []Val{x.freshErr("flush")})
			})
		}, func(s *State) { k(s, []Val{x.freshErr("broken")}) })
	})
	m0("encoding/json.NewEncoder", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv := a[0].(*VIface)
		if iv.dyn == nil || typeName(iv.dyn) != "*bufio.Writer" {
			x.unsupported("an encoder onto something else than a buffered writer")
		}
		_, w := x.ifaceTerms(iv)
		r := x.newRef()
		x.wrHeap(st, "$encodes", []*Term{r}, SInt, w)
		k(st, []Val{x.ptrFromRef(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r)})
	})
	m0("encoding/json.Encoder.SetEscapeHTML", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, nil)
	})
	m0("encoding/json.Encoder.Encode", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv := a[1].(*VIface)
		if iv.dyn == nil {
			x.unsupported("json of an unknown value")
		}
		v := iv.val
		if v == nil {
			v = x.unpay(iv.dyn, iv.pay)
		}
		x.used["encoding/json (assumed: a struct of integers, booleans and arrays of them is encoded without error, on one line, and decodes to the same values)"] = true
		x.use(st)
		o := x.jsonObject(st, v, iv.dyn, pos)
		w := x.rdHeap(st, "$encodes", []*Term{self(x, a[0])}, SInt)
		write(x, st, w, x.cat(o, x.c.Str("\n")), func(s *State, e Val) { k(s, []Val{e}) })
	})
	newFile := func(x *Exec, st *State, t types.Type, path *Term) (*Term, Val) {
		r := x.newRef()
		x.wrHeap(st, "$fpath", []*Term{r}, SInt, path)
		return r, x.ptrFromRef(t.(*types.Pointer).Elem(), r)
	}
	m0("os.OpenFile", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		fl, ok := a[1].(*Term)
		if !ok || !fl.isInt() {
			x.unsupported("open flags")
		}
		bit := func(b int64) *Term { return c.Int((fl.n.Int64() / b) & 1) }
		x.use(st)
		// Linux: O_APPEND 0x400, O_TRUNC 0x200, O_EXCL 0x80, O_CREATE 0x40
		x.event(st, "log.open", a[0], bit(0x400), bit(0x200), bit(0x80), bit(0x40))
		x.use(st)
		x.errForks(st, "open", func(s *State, e Val) {
			x.use(s)
			if iv := e.(*VIface); iv.tag != nil {
				k(s, []Val{x.zero(fn.Signature.Results().At(0).Type()), e})
				return
			}
			r, f := newFile(x, s, fn.Signature.Results().At(0).Type(), a[0].(*Term))
			u := c.App("lasttext", SInt, r)
			x.wrHeap(s, "$fcur", []*Term{r}, SInt, u)
			size := c.App("fsize", SInt, r)
			x.assume(s, c.Ge(size, c.Int(0)), false)
			x.assume(s, c.Imp(c.Eq(size, c.Int(0)), c.Eq(u, c.Str(""))), false)
			k(s, []Val{f, e})
		})
	})
	m0("os.Open", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.errForks(st, "open", func(s *State, e Val) {
			x.use(s)
			if iv := e.(*VIface); iv.tag != nil {
				k(s, []Val{x.zero(fn.Signature.Results().At(0).Type()), e})
				return
			}
			_, f := newFile(x, s, fn.Signature.Results().At(0).Type(), a[0].(*Term))
			k(s, []Val{f, e})
		})
	})
	m0("os.File.Close", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.use(st)
		x.event(st, "log.close", self(x, a[0]))
		x.errForks(st, "close", func(s *State, e Val) { k(s, []Val{e}) })
	})
	m0("os.File.Stat", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.errForks(st, "stat", func(s *State, e Val) {
			x.use(s)
			t := x.c.Fresh("fileinfo", SInt)
			x.assume(s, x.c.Ge(t, x.c.Int(1<<30)), false)
			k(s, []Val{&VIface{tag: t, pay: self(x, a[0])}, e})
		})
	})
	info := func(n string) ifaceFn {
		return func(x *Exec, st *State, iv *VIface, a []Val, pos token.Pos, k func(*State, []Val)) {
			_, f := x.ifaceTerms(iv)
			x.use(st)
			t := x.c.App(n, SInt, f)
			if n == "fsize" {
				x.rangeFact(t, "s64")
				x.assume(st, x.c.Ge(t, x.c.Int(0)), false)
			}
			k(st, []Val{t})
		}
	}
	for _, p := range []string{"io/fs.FileInfo", "os.FileInfo"} {
		ifaceModels[p+".Size"] = info("fsize")
		ifaceModels[p+".Mode"] = info("fmode")
	}
	m0("io/fs.FileMode.IsRegular os.FileMode.IsRegular", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		t := a[0].(*Term)
		if t.op == "app" && t.name == "fmode" {
			k(st, []Val{x.c.App("regular", SBool, t.args[0])})
			return
		}
		k(st, []Val{x.c.App("isregular", SBool, t)})
	})
	m0("os.File.ReadAt", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		f, b, off := self(x, a[0]), a[1].(*VSlice), a[2].(*Term)
		x.use(st)
		size := c.App("fsize", SInt, f)
		if !b.len.isInt() || b.len.n.Int64() != 1 || c.Add(off, c.Int(1)) != size {
			x.unsupported("reading something else than the last byte of a file")
		}
		x.errForks(st, "read", func(s *State, e Val) {
			x.use(s)
			if iv := e.(*VIface); iv.tag == nil {
				l := c.App("lastbyte", SInt, f)
				x.rangeFact(l, "u8")
				x.assume(s, c.Eq(c.Eq(l, c.Int(10)), c.Eq(x.rdHeap(s, "$fcur", []*Term{f}, SInt), c.Str(""))), false)
				x.wrHeap(s, "[]"+className(b.elem), []*Term{b.arr, b.off}, SInt, l)
			}
			k(s, []Val{c.Fresh("read", SInt), e})
		})
	})
	fwrite := func(text func(x *Exec, st *State, v Val) *Term) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
			x.use(st)
			t := text(x, st, a[1])
			f := self(x, a[0])
			x.errForks(st, "write", func(s *State, e Val) {
				x.use(s)
				if iv := e.(*VIface); iv.tag == nil {
					put(x, s, "$fcur", f, t)
				} else {
					x.wrHeap(s, "$fcur", []*Term{f}, SInt, x.c.Fresh("torn", SInt))
				}
				k(s, []Val{x.c.Fresh("written", SInt), e})
			})
		}
	}
	n0(fwrite(func(x *Exec, st *State, v Val) *Term { return v.(*Term) }), "os.File.WriteString")
	n0(fwrite(func(x *Exec, st *State, v Val) *Term {
		b := v.(*VSlice)
		if b.len.isInt() && b.len.n.Int64() == 1 {
			if t := x.rdHeap(st, "[]"+className(b.elem), []*Term{b.arr, b.off}, SInt); t.isInt() {
				return x.c.Str(string(rune(t.n.Int64())))
			}
		}
		return x.bytesToString(st, b)
	}), "os.File.Write")

	// reading line by line
	m0("bufio.NewScanner", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv := a[0].(*VIface)
		if iv.dyn == nil || typeName(iv.dyn) != "*os.File" {
			x.unsupported("scanning something else than a file")
		}
		_, f := x.ifaceTerms(iv)
		r := x.newRef()
		x.wrHeap(st, "$scans", []*Term{r}, SInt, f)
		x.wrHeap(st, "$spos", []*Term{r}, SInt, x.c.Int(0))
		x.wrHeap(st, "$smax", []*Term{r}, SInt, x.c.Int(65536))
		k(st, []Val{x.ptrFromRef(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r)})
	})
	m0("bufio.Scanner.Buffer", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		x.wrHeap(st, "$smax", []*Term{self(x, a[0])}, SInt, a[2].(*Term))
		k(st, nil)
	})
	path := func(x *Exec, st *State, sc *Term) *Term {
		return x.rdHeap(st, "$fpath", []*Term{x.rdHeap(st, "$scans", []*Term{sc}, SInt)}, SInt)
	}
	m0("bufio.Scanner.Scan", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		sc := self(x, a[0])
		x.use(st)
		p := path(x, st, sc)
		at := x.rdHeap(st, "$spos", []*Term{sc}, SInt)
		n := c.App("flen", SInt, p)
		x.assume(st, c.Ge(n, c.Int(0)), false)
		long := c.App("longer", SBool, p, at, x.rdHeap(st, "$smax", []*Term{sc}, SInt))
		x.fork(st, c.And(c.Lt(at, n), c.Not(long)), func(s *State) {
			x.use(s)
			x.wrHeap(s, "$spos", []*Term{sc}, SInt, c.Add(at, c.Int(1)))
			k(s, []Val{c.Bool(true)})
		}, func(s *State) { k(s, []Val{c.Bool(false)}) })
	})
	text := func(x *Exec, st *State, sc *Term) *Term {
		c := x.c
		x.use(st)
		return c.App("fline", SInt, path(x, st, sc), c.Sub(x.rdHeap(st, "$spos", []*Term{sc}, SInt), c.Int(1)))
	}
	m0("bufio.Scanner.Text", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{text(x, st, self(x, a[0]))})
	})
	m0("bufio.Scanner.Bytes", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		k(st, []Val{x.stringToBytes(st, text(x, st, self(x, a[0])), types.Typ[types.Uint8])})
	})
	m0("bufio.Scanner.Err", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		c := x.c
		sc := self(x, a[0])
		x.use(st)
		p := path(x, st, sc)
		x.fork(st, c.Ge(x.rdHeap(st, "$spos", []*Term{sc}, SInt), c.App("flen", SInt, p)), func(s *State) {
			x.errForks(s, "scan", func(s *State, e Val) { k(s, []Val{e}) })
		}, func(s *State) { x.use(s); k(s, []Val{x.freshErr("scan")}) })
	})
	m0("encoding/json.Unmarshal", func(x *Exec, st *State, fn *ssa.Function, a []Val, pos token.Pos, k func(*State, []Val)) {
		iv := a[1].(*VIface)
		if iv.dyn == nil {
			x.unsupported("decoding into an unknown value")
		}
		pt, ok := iv.dyn.Underlying().(*types.Pointer)
		if !ok {
			x.unsupported("decoding into %s", iv.dyn)
		}
		v := iv.val
		if v == nil {
			v = x.unpay(iv.dyn, iv.pay)
		}
		x.used["encoding/json (assumed: whether a text decodes, and to what, depends on the text and the type only)"] = true
		x.use(st)
		p := v.(*VPtr)
		good, w := x.jsonDecode(x.bytesToString(st, a[0].(*VSlice)), pt.Elem(), x.load(st, p, pos))
		x.fork(st, good, func(s *State) {
			x.use(s)
			x.store(s, p, w, pos)
			k(s, []Val{&VIface{}})
		}, func(s *State) {
			x.use(s)
			x.store(s, p, x.freshVal(s, "partial", pt.Elem()), pos)
			k(s, []Val{x.freshErr("json")})
		})
	})
}
