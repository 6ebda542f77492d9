package main

// Models (assumed contracts) of the library functions the driver uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type libCall struct {
	st   *State
	fr   *Frame
	fn   *ssa.Function
	args []SV
	recv *Term
	pos  token.Pos
	sig  *types.Signature
}

// t gives the leaves of argument i (receiver first for methods).
func (l *libCall) t(i int) []*Term {
	v := l.args[i]
	if v.t != nil {
		return v.t
	}
	return l.st.leavesOf(v, nil)
}

func none() SV             { return SV{tup: []SV{}} }
func pair(a, b SV) SV      { return SV{tup: []SV{a, b}} }
func (c *Ctx) nilErr() SV  { return tv(c.Nil()) }
func (l *libCall) c() *Ctx { return l.st.c }

// freshErr is an arbitrary non-nil error that is not one of the driver's own.
func (st *State) freshErr(what string) *Term {
	c := st.c
	e := c.Fresh("err_"+what, SAny)
	st.Assume(c.Not(c.Is("nil", e)))
	st.Assume(c.Not(c.Is(tErr, e)))
	return e
}

type libFn func(l *libCall) SV

const bb = "(*bytes.Buffer)."

var libFuncs = map[string]libFn{}
var libIface = map[string]libFn{}

func (st *State) bufGet(ref *Term) *Term    { return st.rd("G:str", SStr, ref) }
func (st *State) bufSet(ref *Term, s *Term) { st.wr("G:str", SStr, ref, s) }

// otherID is the identity of an abstract object held in an interface.
func (c *Ctx) otherID(v *Term) *Term { return c.unpack("other", v)[0] }

func (st *State) nn(ref *Term, l *libCall) {
	st.noPanic(st.c.Neq(ref, st.c.Zero), "nil pointer dereference", l.pos, l.fr)
}

// writeTo writes byte string s to a writer interface value; returns (n, err).
func (st *State) writeTo(fr *Frame, w *Term, wt types.Type, s *Term, pos token.Pos) (*Term, *Term) {
	obj, _, _ := types.LookupFieldOrMethod(wt, true, nil, "Write")
	sl := st.newBytes(s)
	r := st.invoke(fr, tv(w), wt, obj.(*types.Func), []SV{{t: sl}}, pos)
	return r.tup[0].t[0], r.tup[1].t[0]
}

// readFull models io.ReadFull / io.ReadAtLeast(len) on reader r into slice p.
func (st *State) readFull(fr *Frame, r *Term, rt types.Type, p []*Term, pos token.Pos) (*Term, *Term) {
	c := st.c
	n := p[2]
	switch st.ctorSplit(r, []string{"*bytes.Buffer", "other"}) {
	case "*bytes.Buffer":
		ref := c.unpack("*bytes.Buffer", r)[0]
		s := st.bufGet(ref)
		if st.Branch(c.Le(n, c.Len(s))) {
			a, b := st.take(s, n)
			st.bufSet(ref, b)
			st.setBytes(p, a)
			return n, c.Nil()
		}
		st.bufSet(ref, c.Empty)
		pre, rest := st.take(st.bytesOf(p), c.Len(s))
		_ = pre
		st.setBytes(p, c.Concat(s, rest))
		if st.Branch(c.Eq(c.Len(s), c.Zero)) {
			return c.Zero, c.errEOF()
		}
		return c.Len(s), c.errUEOF()
	case "other":
		id := c.otherID(r)
		in, ps := st.readerState(id)
		avail := c.Sub(c.Len(in), ps)
		if st.Branch(c.Le(n, avail)) {
			np := c.Add(ps, n)
			st.wr("G:pos", SInt, id, np)
			st.setBytes(p, st.normT(c.SubS(in, ps, np)))
			return n, c.Nil()
		}
		// the stream ends (or fails) before n bytes arrived
		k := c.Fresh("nread", SInt)
		st.Assume(c.And(c.Le(c.Zero, k), c.Lt(k, n)))
		st.Assume(c.Le(k, avail))
		st.wr("G:pos", SInt, id, c.Add(ps, k))
		st.wr("G:starved", SBool, id, c.True)
		st.setBytes(p, st.freshStr("garbage", n))
		return k, st.freshErr("read")
	}
	// a reader inside the repository: the library's own code, calling its Read
	u := st.c.U
	u.Lib["io.ReadFull (its source, executed)"] = true
	res := st.callFn(fr, c.P.stdpkg.Func("stdReadFull"), []SV{tv(r), {t: p}}, nil, pos)
	return res.tup[0].t[0], res.tup[1].t[0]
}

func (st *State) freshStr(name string, n *Term) *Term {
	s := st.c.Fresh(name, SStr)
	st.Assume(st.c.Eq(st.c.Len(s), n))
	return s
}

func (st *State) readerState(id *Term) (in, pos *Term) {
	c := st.c
	in = c.UF("inp", SStr, id)
	pos = st.rd("G:pos", SInt, id)
	if pos.op == OSelect && pos.args[0].op == OVar {
		c.addFact(pos, c.Le(c.Zero, pos), c.Le(pos, c.Len(in)))
	}
	return
}

// ctorSplit finds which of the constructors v has ("" if none of them).
func (st *State) ctorSplit(v *Term, ks []string) string {
	if n := st.ctorOf(v); n != "" {
		for _, k := range ks {
			if k == n {
				return n
			}
		}
		return ""
	}
	for _, k := range ks {
		if st.Branch(st.c.Is(k, v)) {
			return k
		}
	}
	return ""
}

func (c *Ctx) errUEOF() *Term { return c.Ctor("other", c.Int(1003)) }

func (st *State) intBytes(v *Term, order *Term, l *libCall) *Term {
	c := st.c
	n := st.ctorOf(v)
	if n == "" {
		unsupported("binary.Write of a value of unknown type")
	}
	t := c.ctorType(n)
	if t == nil {
		unsupported("binary.Write of %s", n)
	}
	ls := leaves(t)
	if len(ls) != 1 || ls[0].kind != kInt && ls[0].kind != kFloat && ls[0].kind != kBool {
		if len(ls) == 4 && isByteSlice(t) {
			return st.bytesOf(c.unpack(n, v))
		}
		unsupported("binary.Write of %s", n)
	}
	if n == "int" || n == "uint" || n == "uintptr" || ls[0].kind == kBool {
		unsupported("binary.Write of %s", n)
	}
	bits := ls[0].bits
	if n == "float32" {
		bits = 32
	}
	s := c.BytesBE(c.unpack(n, v)[0], bits/8)
	return st.orderBytes(s, order, bits/8)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (st *State) orderBytes(s, order *Term, n int) *Term {
	c := st.c
	switch st.ctorOf(order) {
	case "encoding/binary.bigEndian":
		return s
	case "encoding/binary.littleEndian":
		var ps []*Term
		for i := n - 1; i >= 0; i-- {
			ps = append(ps, c.Unit(st.atByte(s, c.Int(int64(i)))))
		}
		return c.Concat(ps...)
	}
	unsupported("unknown byte order")
	return nil
}

func hashID(s string) int64 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int64(h.Sum32()%900000) + 10000
}

func init() {
	F := libFuncs
	// ----- bytes.Buffer
	F[bb+"Write"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r, p := l.t(0)[0], l.t(1)
		st.nn(r, l)
		st.bufSet(r, c.Concat(st.bufGet(r), st.bytesOf(p)))
		return pair(tv(p[2]), c.nilErr())
	}
	F[bb+"WriteString"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r, s := l.t(0)[0], l.t(1)[0]
		st.nn(r, l)
		st.bufSet(r, c.Concat(st.bufGet(r), s))
		return pair(tv(c.Len(s)), c.nilErr())
	}
	F[bb+"WriteByte"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r := l.t(0)[0]
		st.nn(r, l)
		st.bufSet(r, c.Concat(st.bufGet(r), c.Unit(l.t(1)[0])))
		return c.nilErr()
	}
	F[bb+"Len"] = func(l *libCall) SV {
		st := l.st
		r := l.t(0)[0]
		st.nn(r, l)
		return tv(st.c.Len(st.normT(st.bufGet(r))))
	}
	F[bb+"Reset"] = func(l *libCall) SV {
		l.st.nn(l.t(0)[0], l)
		l.st.bufSet(l.t(0)[0], l.c().Empty)
		return none()
	}
	F[bb+"Truncate"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r, n := l.t(0)[0], l.t(1)[0]
		s := st.bufGet(r)
		st.noPanic(c.And(c.Le(c.Zero, n), c.Le(n, c.Len(s))), "bytes.Buffer.Truncate out of range", l.pos, l.fr)
		a, _ := st.take(s, n)
		st.bufSet(r, a)
		return none()
	}
	F[bb+"Grow"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		st.noPanic(c.Le(c.Zero, l.t(1)[0]), "bytes.Buffer.Grow negative", l.pos, l.fr)
		st.allocBound(l.t(1)[0], nil, l.pos, l.fr)
		return none()
	}
	F[bb+"Bytes"] = func(l *libCall) SV {
		st := l.st
		st.nn(l.t(0)[0], l)
		return SV{t: st.newBytes(st.normT(st.bufGet(l.t(0)[0])))}
	}
	F[bb+"String"] = func(l *libCall) SV {
		st := l.st
		return tv(st.normT(st.bufGet(l.t(0)[0])))
	}
	F[bb+"Next"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r, n := l.t(0)[0], l.t(1)[0]
		st.nn(r, l)
		s := st.normT(st.bufGet(r))
		st.noPanic(c.Le(c.Zero, n), "bytes.Buffer.Next with negative count", l.pos, l.fr)
		if !st.Branch(c.Le(n, c.Len(s))) {
			st.bufSet(r, c.Empty)
			return SV{t: st.newBytes(s)}
		}
		a, b := st.take(s, n)
		st.bufSet(r, b)
		return SV{t: st.newBytes(a)}
	}
	F[bb+"ReadByte"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r := l.t(0)[0]
		st.nn(r, l)
		s := st.normT(st.bufGet(r))
		if !st.Branch(c.Le(c.Int(1), c.Len(s))) {
			return pair(tv(c.Zero), tv(c.errEOF()))
		}
		a, b := st.take(s, c.Int(1))
		st.bufSet(r, b)
		return pair(tv(st.atByte(a, c.Zero)), c.nilErr())
	}
	F[bb+"Read"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r, p := l.t(0)[0], l.t(1)
		st.nn(r, l)
		s := st.normT(st.bufGet(r))
		if !st.Branch(c.Le(c.Int(1), c.Len(s))) {
			if st.Branch(c.Eq(p[2], c.Zero)) {
				return pair(tv(c.Zero), c.nilErr())
			}
			return pair(tv(c.Zero), tv(c.errEOF()))
		}
		n := p[2]
		if !st.Branch(c.Le(p[2], c.Len(s))) {
			n = c.Len(s)
		}
		a, b := st.take(s, n)
		st.bufSet(r, b)
		_, rest := st.take(st.bytesOf(p), n)
		st.setBytes(p, c.Concat(a, rest))
		return pair(tv(n), c.nilErr())
	}
	F[bb+"WriteTo"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r := l.t(0)[0]
		st.nn(r, l)
		s := st.normT(st.bufGet(r))
		if !st.Branch(c.Le(c.Int(1), c.Len(s))) {
			return pair(tv(c.Zero), c.nilErr())
		}
		n, err := st.writeTo(l.fr, l.t(1)[0], l.fn.Signature.Params().At(0).Type(), s, l.pos)
		if st.Branch(c.Is("nil", err)) {
			st.bufSet(r, c.Empty)
			return pair(tv(n), c.nilErr())
		}
		st.bufSet(r, st.freshStr("unwritten", c.Fresh("n", SInt)))
		return pair(tv(n), tv(err))
	}
	F["bytes.NewBuffer"] = func(l *libCall) SV {
		st := l.st
		r := st.newRef()
		st.bufSet(r, st.bytesOf(l.t(0)))
		return tv(r)
	}
	F["bytes.NewBufferString"] = func(l *libCall) SV {
		st := l.st
		r := st.newRef()
		st.bufSet(r, l.t(0)[0])
		return tv(r)
	}
	F["bytes.Equal"] = func(l *libCall) SV {
		return tv(l.st.strEq(l.st.bytesOf(l.t(0)), l.st.bytesOf(l.t(1))))
	}
	F["bytes.HasSuffix"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		a, b := st.bytesOf(l.t(0)), st.bytesOf(l.t(1))
		if !st.Branch(c.Le(c.Len(b), c.Len(a))) {
			return tv(c.False)
		}
		_, suf := st.take(a, c.Sub(c.Len(a), c.Len(b)))
		return tv(st.strEq(suf, b))
	}
	// ----- encoding/binary
	F["encoding/binary.Write"] = func(l *libCall) SV {
		st := l.st
		s := st.intBytes(l.t(2)[0], l.t(1)[0], l)
		_, err := st.writeTo(l.fr, l.t(0)[0], l.fn.Signature.Params().At(0).Type(), s, l.pos)
		return tv(err)
	}
	F["encoding/binary.Read"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		d := l.t(2)[0]
		n := st.ctorOf(d)
		pt, ok := c.ctorType(n).(*types.Pointer)
		if !ok {
			unsupported("binary.Read into %s", n)
		}
		lf := leaves(pt.Elem())
		if len(lf) != 1 || lf[0].kind != kInt && lf[0].kind != kFloat {
			unsupported("binary.Read into %s", n)
		}
		bits := lf[0].bits
		tmp := st.newBytes(c.Lit(strings.Repeat("\x00", bits/8)))
		_, err := st.readFull(l.fr, l.t(0)[0], l.fn.Signature.Params().At(0).Type(), tmp, l.pos)
		if !st.Branch(c.Is("nil", err)) {
			return tv(err)
		}
		s := st.orderBytes(st.bytesOf(tmp), l.t(1)[0], bits/8)
		v := st.fromBytes(s, bits/8)
		if lf[0].kind == kInt {
			v = st.wrap(v, bits, lf[0].signed)
		}
		st.wr(fName(pt.Elem(), ""), SInt, c.unpack(n, d)[0], v)
		return c.nilErr()
	}
	for _, o := range []string{"bigEndian", "littleEndian"} {
		o := o
		for _, n := range []int{2, 4, 8} {
			n := n
			F[fmt.Sprintf("(encoding/binary.%s).Uint%d", o, n*8)] = func(l *libCall) SV {
				st, c := l.st, l.c()
				p := l.t(len(l.args) - 1)
				st.noPanic(c.Le(c.Int(int64(n)), p[2]), "index out of range", l.pos, l.fr)
				s, _ := st.take(st.bytesOf(p), c.Int(int64(n)))
				return tv(st.fromBytes(st.orderBytes(s, c.Ctor("encoding/binary."+o), n), n))
			}
			F[fmt.Sprintf("(encoding/binary.%s).PutUint%d", o, n*8)] = func(l *libCall) SV {
				st, c := l.st, l.c()
				p := l.t(len(l.args) - 2)
				v := l.t(len(l.args) - 1)[0]
				st.noPanic(c.Le(c.Int(int64(n)), p[2]), "index out of range", l.pos, l.fr)
				_, rest := st.take(st.bytesOf(p), c.Int(int64(n)))
				st.setBytes(p, c.Concat(st.orderBytes(c.BytesBE(v, n), c.Ctor("encoding/binary."+o), n), rest))
				return none()
			}
		}
	}
	F["(database/sql/driver.defaultConverter).ConvertValue"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		v := l.t(len(l.args) - 1)[0]
		basic := []*Term{c.Eq(v, c.Nil())}
		for _, n := range []string{"int64", "float64", "bool", "string"} {
			basic = append(basic, c.Is(n, v))
		}
		if st.Branch(c.Or(basic...)) {
			return pair(tv(v), c.nilErr())
		}
		if st.Choose(2, "convert") == 1 {
			return pair(tv(c.Nil()), tv(st.netErr("convert")))
		}
		return pair(tv(c.Fresh("converted", SAny)), c.nilErr())
	}
	newErr := func(l *libCall) SV { return tv(l.st.netErr("newerror")) }
	F["errors.New"] = newErr
	F["fmt.Errorf"] = newErr
	F["math.Float64bits"] = func(l *libCall) SV { return tv(l.t(0)[0]) }
	F["math.Float64frombits"] = func(l *libCall) SV { return tv(l.t(0)[0]) }
	// ----- io
	F["io.ReadFull"] = func(l *libCall) SV {
		n, e := l.st.readFull(l.fr, l.t(0)[0], l.fn.Signature.Params().At(0).Type(), l.t(1), l.pos)
		return pair(tv(n), tv(e))
	}
	F["io.ReadAtLeast"] = func(l *libCall) SV {
		if l.st.decide(l.c().Eq(l.t(2)[0], l.t(1)[2])) != 1 {
			unsupported("io.ReadAtLeast with min != len")
		}
		n, e := l.st.readFull(l.fr, l.t(0)[0], l.fn.Signature.Params().At(0).Type(), l.t(1), l.pos)
		return pair(tv(n), tv(e))
	}
	libIface["io.Reader.Read"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		id := c.otherID(l.recv)
		p := l.t(0)
		in, ps := st.readerState(id)
		if st.Branch(c.Eq(p[2], c.Zero)) {
			return pair(tv(c.Zero), c.nilErr())
		}
		avail := c.Sub(c.Len(in), ps)
		n := c.Fresh("nread", SInt)
		st.Assume(c.And(c.Le(c.Zero, n), c.Le(n, p[2]), c.Le(n, avail)))
		np := c.Add(ps, n)
		data := c.Concat(st.normT(c.SubS(in, ps, np)), st.freshStr("garbage", c.Sub(p[2], n)))
		if _, rest := st.take(st.bytesOf(p), n); rest != nil {
			data = c.Concat(st.normT(c.SubS(in, ps, np)), rest)
		}
		st.wr("G:pos", SInt, id, np)
		st.setBytes(p, data)
		switch st.Choose(2, "read result") {
		case 0:
			st.Assume(c.Le(c.Int(1), n))
			return pair(tv(n), c.nilErr())
		}
		// error: only when the stream has ended / failed, possibly together with the last bytes
		st.Assume(c.Eq(n, avail))
		if st.Branch(c.Lt(n, p[2])) {
			st.wr("G:starved", SBool, id, c.True)
		}
		return pair(tv(n), tv(st.freshErr("read")))
	}
	libIface["io.Writer.Write"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		id := c.otherID(l.recv)
		p := l.t(0)
		s := st.bytesOf(p)
		log := st.rd("G:log", SStr, id)
		if st.Choose(2, "write result") == 0 {
			st.wr("G:log", SStr, id, c.Concat(log, s))
			return pair(tv(p[2]), c.nilErr())
		}
		n := c.Fresh("nwritten", SInt)
		st.Assume(c.And(c.Le(c.Zero, n), c.Le(n, p[2])))
		e := st.freshErr("write")
		st.wr("G:log", SStr, id, c.Concat(log, st.freshStr("partial", n)))
		st.wr("G:werr", SAny, id, e)
		return pair(tv(n), tv(e))
	}
	// ----- structures.Structure of unknown implementation
	libIface["structures.Structure.Signature"] = func(l *libCall) SV {
		return tv(l.st.wrap(l.c().UF("sigOf", SInt, l.recv), 64, true))
	}
	libIface["structures.Structure.AllFields"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		arr, n := st.otherFields(l.recv)
		r := st.newRef()
		t := c.ctorType(tSlice).Underlying().(*types.Slice).Elem()
		st.wr(eName(t, ""), arrSort(SInt, SAny), r, arr)
		return tv(r, c.Zero, n, n)
	}
	// ----- reflect
	F["reflect.TypeOf"] = func(l *libCall) SV {
		c := l.c()
		if l.st.Branch(c.Is("nil", l.t(0)[0])) {
			return tv(c.Nil())
		}
		return tv(c.Ctor("other", c.UF("rtypeid", SInt, l.t(0)[0])))
	}
	libIface["reflect.Type.Kind"] = func(l *libCall) SV {
		id := l.c().otherID(l.recv)
		if id.op == OUF && id.s == "rtypeid" {
			return tv(l.st.rkind(id.args[0]))
		}
		unsupported("reflect.Type.Kind of unknown type")
		return SV{}
	}
	F["reflect.ValueOf"] = func(l *libCall) SV { return tv(l.c().UF("rvalue", SInt, l.t(0)[0])) }
	F["(reflect.Value).Kind"] = func(l *libCall) SV {
		x := l.t(0)[0]
		if x.op != OUF || x.s != "rvalue" {
			unsupported("reflect.Value.Kind")
		}
		return tv(l.st.rkind(x.args[0]))
	}
	F["(reflect.Value).Len"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		x := l.t(0)[0]
		if x.op != OUF || x.s != "rvalue" {
			unsupported("reflect.Value.Len")
		}
		st.noPanic(c.Eq(st.rkind(x.args[0]), c.Int(23)), "reflect: Len of non-slice", l.pos, l.fr)
		return tv(st.rlist(x.args[0]).args[2])
	}
	F["(reflect.Value).Index"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		x, i := l.t(0)[0], l.t(1)[0]
		if x.op != OUF || x.s != "rvalue" {
			unsupported("reflect.Value.Index")
		}
		li := st.rlist(x.args[0])
		st.noPanic(c.And(c.Le(c.Zero, i), c.Lt(i, li.args[2])), "reflect: slice index out of range", l.pos, l.fr)
		return tv(c.UF("rvelem", SInt, x.args[0], i))
	}
	F["(reflect.Value).Interface"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		x := l.t(0)[0]
		switch {
		case x.op == OUF && x.s == "rvalue":
			return tv(x.args[0])
		case x.op == OUF && x.s == "rvelem":
			return tv(c.Inst(st.rlist(x.args[0]), x.args[1]))
		}
		unsupported("reflect.Value.Interface")
		return SV{}
	}
	// ----- fmt, runtime/debug
	F["fmt.Sprintf"] = func(l *libCall) SV { return tv(l.c().Fresh("sprintf", SStr)) }
	F["fmt.Sprint"] = F["fmt.Sprintf"]
	F["runtime/debug.Stack"] = func(l *libCall) SV { return l.st.freshSlice("stack", l.fn.Signature.Results().At(0).Type()) }
	F["sync.(*Mutex).Lock"] = nil
	delete(F, "sync.(*Mutex).Lock")
}

func (st *State) freshSlice(prefix string, t types.Type) SV {
	c := st.c
	n := c.Fresh(prefix+"len", SInt)
	st.Assume(c.And(c.Le(c.Zero, n), c.Le(n, c.BigInt(pow2(48)))))
	r := st.newRef()
	if isByteSlice(t) {
		st.wr("B", SStr, r, st.freshStr(prefix, n))
	} else {
		el := t.Underlying().(*types.Slice).Elem()
		for _, l := range leaves(el) {
			s := arrSort(SInt, l.sort())
			st.wr(eName(el, l.path), s, r, c.Fresh(prefix, s))
		}
	}
	return tv(r, c.Zero, n, n)
}

func (st *State) fromBytes(s *Term, n int) *Term {
	var bs []*Term
	for i := 0; i < n; i++ {
		bs = append(bs, st.atByte(s, st.c.Int(int64(i))))
	}
	return st.c.FromBE(bs)
}

// rkind is reflect's kind of the dynamic type of v.
func (st *State) rkind(v *Term) *Term {
	c := st.c
	n := st.ctorOf(v)
	if n == "" {
		n = st.ctorSplit(v, append([]string(nil), c.ctorL...))
		if n == "" { // the constructors cover every dynamic type
			st.Assume(c.Is("other", v))
			n = "other"
		}
	}
	if n != "" && n != "other" && n != "nil" {
		if t := c.ctorType(n); t != nil {
			switch t.Underlying().(type) {
			case *types.Slice:
				return c.Int(23)
			case *types.Pointer:
				return c.Int(22)
			case *types.Struct:
				return c.Int(25)
			case *types.Map:
				return c.Int(21)
			}
			return c.Int(1)
		}
	}
	return c.UF("rkind", SInt, v)
}

func (st *State) rlist(v *Term) *Term {
	if l := st.asList(v); l != nil {
		return l
	}
	return st.otherList(v)
}

// ---------- builtins ----------

func (st *State) builtin(fr *Frame, name string, args []SV, call *ssa.CallCommon, pos token.Pos) SV {
	c := st.c
	lv := func(i int) []*Term { return st.leavesOf(args[i], call.Args[i].Type()) }
	switch name {
	case "len":
		switch call.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return tv(lv(0)[2])
		case *types.Basic:
			return tv(c.Len(st.normT(lv(0)[0])))
		case *types.Map:
			return tv(st.mapLen(lv(0)[0]))
		case *types.Chan:
			return tv(st.rd("G:chlen", SInt, lv(0)[0]))
		}
	case "cap":
		switch call.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return tv(lv(0)[3])
		case *types.Chan:
			return tv(st.rd("G:chcap", SInt, lv(0)[0]))
		}
	case "append":
		return st.appendOp(call, lv(0), lv(1))
	case "copy":
		dst := lv(0)
		src := lv(1)
		st0, ok := call.Args[0].Type().Underlying().(*types.Slice)
		if ok && isByte(st0.Elem()) {
			var s *Term
			if len(src) == 1 {
				s = src[0]
			} else {
				s = st.bytesOf(src)
			}
			n := dst[2]
			if !st.Branch(c.Le(dst[2], c.Len(s))) {
				n = c.Len(s)
			}
			a, _ := st.take(s, n)
			_, rest := st.take(st.bytesOf(dst), n)
			st.setBytes(dst, c.Concat(a, rest))
			return tv(n)
		}
		return st.copyElems(st0.Elem(), dst, src)
	case "delete":
		m, k := lv(0)[0], st.normT(lv(1)[0])
		mt := call.Args[0].Type().Underlying().(*types.Map)
		if typeName(mt) != tMap {
			return none()
		}
		has := st.mapHas(m)
		ln := st.mapLen(m)
		if st.Branch(c.And(c.Neq(m, c.Zero), c.Select(has, k))) {
			st.wr("M:len", SInt, m, c.AddI(ln, -1))
			st.wr("M:has", arrSort(SStr, SBool), m, c.Store(has, k, c.False))
		}
		return none()
	case "close":
		ch := lv(0)[0]
		st.noPanic(c.And(c.Neq(ch, c.Zero), c.Not(st.rd("G:chclosed", SBool, ch))), "close of nil or closed channel", pos, fr)
		st.wr("G:chclosed", SBool, ch, c.True)
		return none()
	case "ssa:wrapnilchk":
		st.noPanic(c.Neq(lv(0)[0], c.Zero), "nil pointer dereference", pos, fr)
		return args[0]
	case "recover":
		return tv(c.Nil())
	case "min", "max":
		a, b := lv(0)[0], lv(1)[0]
		less := c.Lt(a, b)
		if name == "max" {
			less = c.Lt(b, a)
		}
		if st.Branch(less) {
			return tv(a)
		}
		return tv(b)
	case "print", "println":
		return none()
	}
	unsupported("builtin %s", name)
	return SV{}
}

func (st *State) copyElems(el types.Type, dst, src []*Term) SV {
	c := st.c
	n := dst[2]
	if !st.Branch(c.Le(dst[2], src[2])) {
		n = src[2]
	}
	for _, l := range leaves(el) {
		s := arrSort(SInt, l.sort())
		nm := eName(el, l.path)
		da, sa := st.rd(nm, s, dst[0]), st.rd(nm, s, src[0])
		if k, ok := n.intVal(); ok && k <= 8 {
			for i := int64(0); i < k; i++ {
				da = c.Store(da, c.AddI(dst[1], i), c.Select(sa, c.AddI(src[1], i)))
			}
			st.wr(nm, s, dst[0], da)
			continue
		}
		na := c.Fresh("copied", s)
		st.Assume(c.withPatterns(c.Forall(SInt, func(j *Term) *Term {
			in := c.And(c.Le(dst[1], j), c.Lt(j, c.Add(dst[1], n)))
			return c.Eq(c.Select(na, j), c.Ite(in, c.Select(sa, c.Add(c.Sub(j, dst[1]), src[1])), c.Select(da, j)))
		})))
		st.wr(nm, s, dst[0], na)
	}
	return tv(n)
}

// appendOp models append as a copy into a new backing array (the driver never
// relies on sharing between the argument and the result of append).
func (st *State) appendOp(call *ssa.CallCommon, a, b []*Term) SV {
	c := st.c
	el := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isByte(el) {
		var s *Term
		if len(b) == 1 {
			s = b[0]
		} else {
			s = st.bytesOf(b)
		}
		return SV{t: st.newBytes(c.Concat(st.bytesOf(a), s))}
	}
	r := st.newRef()
	ln := c.Add(a[2], b[2])
	k, isLit := b[2].intVal()
	for _, l := range leaves(el) {
		s := arrSort(SInt, l.sort())
		nm := eName(el, l.path)
		aa := st.rd(nm, s, a[0])
		if c.isZero(a[2]) {
			aa = c.ConstArr(s, c.zeroOf(l.sort()))
		} else if !c.isZero(a[1]) {
			na := c.Fresh("shifted", s)
			off := a[1]
			old := aa
			st.Assume(c.withPatterns(c.Forall(SInt, func(j *Term) *Term {
				return c.Eq(c.Select(na, j), c.Select(old, c.Add(j, off)))
			})))
			aa = na
		}
		ba := st.rd(nm, s, b[0])
		if isLit && k <= 8 {
			for i := int64(0); i < k; i++ {
				aa = c.Store(aa, c.AddI(a[2], i), st.sel(ba, c.AddI(b[1], i)))
			}
		} else if c.isZero(a[2]) && c.isZero(b[1]) {
			aa = ba
		} else {
			na := c.Fresh("appended", s)
			old := aa
			st.Assume(c.withPatterns(c.Forall(SInt, func(j *Term) *Term {
				return c.Eq(c.Select(na, j), c.Ite(c.Lt(j, a[2]), c.Select(old, j), c.Select(ba, c.Add(c.Sub(j, a[2]), b[1]))))
			})))
			aa = na
		}
		st.wr(nm, s, r, aa)
	}
	return tv(r, c.Zero, ln, ln)
}

func (st *State) sel(a, i *Term) *Term { return st.c.Select(a, i) }

// allocBound: the unit may require allocations to be bounded.
func (st *State) allocBound(n *Term, elem types.Type, pos token.Pos, fr *Frame) {
	u := st.c.U
	if u.Con == nil || u.Con.alloc == nil || st.vars["allocbound"] == nil {
		return
	}
	st.Prove(st.c.Le(n, st.vars["allocbound"]), "alloc/bounded by the data present in "+fr.label, u.Con.alloc.tags, st.c.P.pos(pos))
}

// globalConst gives library globals a fixed abstract value.
func (st *State) globalConst(a *Addr) (SV, bool) {
	c := st.c
	g := a.glob
	if g.Pkg == nil || strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath) {
		return SV{}, false
	}
	name := g.String()
	switch name {
	case "io.EOF":
		return tv(c.errEOF()), true
	case "io.ErrUnexpectedEOF":
		return tv(c.errUEOF()), true
	case "database/sql/driver.ErrBadConn":
		return tv(c.errBadConn()), true
	}
	ls := leaves(a.typ)
	if len(ls) == 1 && ls[0].kind == kAny {
		return tv(c.Ctor("other", c.Int(hashID(name)))), true
	}
	var out []*Term
	for _, l := range ls {
		out = append(out, c.Var("glob:"+name+"."+joinPath(a.path, l.path), l.sort()))
	}
	return SV{t: out}, true
}

// logCall: the log package only writes to the standard logger.
func (st *State) logCall(short string, fn *ssa.Function) SV {
	st.c.U.Assumed["package log has no effect on driver state and never panics"] = true
	return st.freshResults(fn.Signature, "log")
}
