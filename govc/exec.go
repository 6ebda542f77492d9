package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a symbolic Go value: flattened leaves, or an address, or a function.
type SV struct {
	t    []*Term
	addr *Addr
	fn   *FuncVal
	tup  []SV
}

type FuncVal struct {
	fn    *ssa.Function
	binds []SV
	blt   string
}

// Addr is a pointer into an object.
type Addr struct {
	glob *ssa.Global
	ref  *Term
	idx  *Term      // element address when non-nil
	root types.Type // type of the object (struct / cell / element type)
	path string     // field path below root
	typ  types.Type // type of the addressed location
}

func tv(ts ...*Term) SV { return SV{t: ts} }

// Frame is an activation record.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]SV
	defers []func(st *State)
	active map[*ssa.BasicBlock]*activeLoop
	peels  map[*ssa.BasicBlock]int
	label  string
	skip   *ssa.BasicBlock // resume at this loop head, after its phis
}

type activeLoop struct {
	lp    *loop
	inv   *loopInv
	scout func(st *State, fr *Frame, pred *ssa.BasicBlock) // nil: main run
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]SV, len(fr.env))
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = append([]func(*State){}, fr.defers...)
	n.active = map[*ssa.BasicBlock]*activeLoop{}
	for k, v := range fr.active {
		n.active[k] = v
	}
	n.peels = map[*ssa.BasicBlock]int{}
	for k, v := range fr.peels {
		n.peels[k] = v
	}
	return &n
}

func unsupported(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

type unsup struct{ msg string }

// leavesOf materialises an SV as terms of Go type t.
func (st *State) leavesOf(v SV, t types.Type) []*Term {
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		a := v.addr
		if a.glob == nil && a.idx == nil && a.path == "" {
			return []*Term{a.ref}
		}
		// interior pointer: opaque identity
		if a.glob != nil {
			return []*Term{st.c.Var("&"+a.glob.String(), SInt)}
		}
		if a.idx == nil {
			return []*Term{st.c.UF("ptr:"+a.path, SInt, a.ref)}
		}
		return []*Term{st.c.UF("ptrE:"+a.path, SInt, a.ref, a.idx)}
	}
	if v.fn != nil {
		return []*Term{st.c.Var("func:"+fmt.Sprint(v.fn.fn), SInt)}
	}
	if v.tup != nil {
		var out []*Term
		tp, _ := t.(*types.Tuple)
		for i, x := range v.tup {
			var et types.Type
			if tp != nil {
				et = tp.At(i).Type()
			}
			out = append(out, st.leavesOf(x, et)...)
		}
		return out
	}
	return []*Term{}
}

func (st *State) zero(t types.Type) []*Term {
	c := st.c
	var out []*Term
	for _, l := range leaves(t) {
		out = append(out, c.zeroOf(l.sort()))
	}
	return out
}

func (c *Ctx) zeroOf(s Sort) *Term {
	switch s {
	case SBool:
		return c.False
	case SStr:
		return c.Empty
	case SAny:
		return c.Nil()
	}
	return c.Zero
}

// freshVal makes an arbitrary value of type t.
func (st *State) freshVal(prefix string, t types.Type) SV {
	ls := leaves(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = st.c.Fresh(prefix, l.sort())
	}
	for _, f := range st.c.leafFacts(ls, out) {
		st.Assume(f)
	}
	return SV{t: out}
}

// oldVal makes a named entry value.
func (st *State) oldVal(name string, t types.Type) SV {
	ls := leaves(t)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		n := name
		if l.path != "" {
			n += "." + l.path
		}
		out[i] = st.c.Var(n, l.sort())
		st.c.markOld(out[i])
	}
	for _, f := range st.c.leafFacts(ls, out) {
		st.Assume(f)
	}
	return SV{t: out}
}

// ---------- memory ----------

func fieldRange(root types.Type, idx int) (int, int) {
	s := root.Underlying().(*types.Struct)
	off := 0
	for i := 0; i < idx; i++ {
		off += nLeaves(s.Field(i).Type())
	}
	return off, off + nLeaves(s.Field(idx).Type())
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

func pointee(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// asAddr turns a pointer value into an address.
func (st *State) asAddr(v SV, ptrType types.Type, pos token.Pos, fr *Frame) *Addr {
	if v.addr != nil {
		return v.addr
	}
	el := pointee(ptrType)
	ref := v.t[0]
	st.noPanic(st.c.Neq(ref, st.c.Zero), "nil pointer dereference", pos, fr)
	return &Addr{ref: ref, root: el, typ: el}
}

func (st *State) noPanic(cond *Term, what string, pos token.Pos, fr *Frame) {
	st.Prove(cond, "nopanic/"+what+" in "+fr.label, st.c.U.PanicTag, st.c.P.pos(pos))
}

func (st *State) locs(a *Addr) ([]Leaf, func(l Leaf) (string, Sort)) {
	ls := leaves(a.typ)
	return ls, func(l Leaf) (string, Sort) {
		p := joinPath(a.path, l.path)
		if a.glob != nil {
			return "V:" + a.glob.String() + ":" + p, l.sort()
		}
		if a.idx != nil {
			return eName(a.root, p), l.sort()
		}
		return fName(a.root, p), l.sort()
	}
}

func (st *State) load(a *Addr) SV {
	c := st.c
	if a.glob != nil {
		if v, ok := st.globalConst(a); ok {
			return v
		}
	}
	if a.idx != nil && isByte(a.root) && a.path == "" {
		return tv(st.atByte(st.rd("B", SStr, a.ref), a.idx))
	}
	if at, ok := a.typ.Underlying().(*types.Array); ok {
		// the value of an array is a copy nobody writes to
		if a.glob != nil || a.path != "" || a.idx != nil {
			unsupported("load of nested array value")
		}
		r := st.newRef()
		st.copyArray(at, r, a.ref)
		return tv(r)
	}
	ls, nm := st.locs(a)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		n, s := nm(l)
		if a.idx != nil {
			out[i] = c.Select(st.rd(n, arrSort(SInt, s), a.ref), a.idx)
		} else {
			r := a.ref
			if a.glob != nil {
				r = c.Zero
			}
			out[i] = st.rd(n, s, r)
		}
	}
	st.typeFactsFor(ls, out)
	return SV{t: out}
}

// typeFactsFor: what is read from typed memory is in the range of its type.
// Only a read of memory nothing has been written to has this as a fact of its
// own; after writes it is knowledge of the path.
func (st *State) typeFactsFor(ls []Leaf, out []*Term) {
	c := st.c
	global := true
	for _, t := range out {
		switch t.op {
		case OVar:
			if !c.isOld(t) {
				return
			}
			global = false
		case OSelect:
			r := t
			for r.op == OSelect {
				r = r.args[0]
			}
			if r.op != OVar {
				global = false
			}
		default:
			global = false
		}
		if t.bnd {
			return
		}
	}
	if global {
		c.attachFacts(ls, out)
		return
	}
	for i, l := range ls {
		if out[i].op == OSelect {
			switch l.kind {
			case kSlRef:
				for _, f := range c.leafFacts(ls[i:i+4], out[i:i+4]) {
					st.Assume(f)
				}
			case kSlOff, kSlLen, kSlCap:
			default:
				for _, f := range c.leafFacts(ls[i:i+1], out[i:i+1]) {
					st.Assume(f)
				}
			}
		}
	}
}

func (st *State) copyArray(at *types.Array, dst, src *Term) {
	if isByte(at.Elem()) {
		st.wr("B", SStr, dst, st.rd("B", SStr, src))
		return
	}
	for _, l := range leaves(at.Elem()) {
		n, s := eName(at.Elem(), l.path), arrSort(SInt, l.sort())
		st.wr(n, s, dst, st.rd(n, s, src))
	}
}

func (st *State) store(a *Addr, v []*Term) {
	c := st.c
	if at, ok := a.typ.Underlying().(*types.Array); ok {
		if a.glob != nil || a.path != "" || a.idx != nil || len(v) != 1 {
			unsupported("store of nested array value")
		}
		st.copyArray(at, a.ref, v[0])
		return
	}
	if a.idx != nil && isByte(a.root) && a.path == "" {
		b := st.rd("B", SStr, a.ref)
		pre, rest := st.take(b, a.idx)
		_, post := st.take(rest, c.Int(1))
		st.wr("B", SStr, a.ref, c.Concat(pre, c.Unit(v[0]), post))
		return
	}
	ls, nm := st.locs(a)
	if len(ls) != len(v) {
		unsupported("store arity %d %d at %s", len(ls), len(v), a.path)
	}
	for i, l := range ls {
		n, s := nm(l)
		if a.idx != nil {
			arr := st.rd(n, arrSort(SInt, s), a.ref)
			st.wr(n, arrSort(SInt, s), a.ref, c.Store(arr, a.idx, v[i]))
		} else {
			r := a.ref
			if a.glob != nil {
				r = c.Zero
			}
			st.wr(n, s, r, v[i])
			if _, ok := a.typ.Underlying().(*types.Chan); ok && a.glob == nil {
				// a new channel belongs to the first object that holds it
				o := st.rd("G:owner", SInt, v[i])
				st.wr("G:owner", SInt, v[i], c.Ite(c.And(c.Lt(v[i], c.Zero), c.Eq(o, c.Zero)), r, o))
			}
		}
	}
}

// alloc makes a zeroed object of type t.
func (st *State) alloc(t types.Type) *Term {
	c := st.c
	r := st.newRef()
	st.initObj(r, t)
	_ = c
	return r
}

func (st *State) initObj(r *Term, t types.Type) {
	c := st.c
	if n, ok := types.Unalias(t).(*types.Named); ok && typeName(n) == "bytes.Buffer" {
		st.wr("G:str", SStr, r, c.Empty)
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		st.initBacking(r, at.Elem(), c.Int(at.Len()))
		return
	}
	for _, l := range leaves(t) {
		st.wr(fName(t, l.path), l.sort(), r, c.zeroOf(l.sort()))
	}
}

func (st *State) initBacking(r *Term, elem types.Type, n *Term) {
	c := st.c
	if isByte(elem) {
		if k, ok := n.intVal(); ok && k <= 64 {
			st.wr("B", SStr, r, c.Lit(strings.Repeat("\x00", int(k))))
			return
		}
		z := c.UF("zeros", SStr, n)
		c.addFact(z, c.Eq(c.Len(z), n))
		st.wr("B", SStr, r, z)
		return
	}
	for _, l := range leaves(elem) {
		s := arrSort(SInt, l.sort())
		st.wr(eName(elem, l.path), s, r, c.ConstArr(s, c.zeroOf(l.sort())))
	}
}

// bytesOf is the content of a []byte value.
func (st *State) bytesOf(v []*Term) *Term {
	return st.normT(st.c.SubS(st.rd("B", SStr, v[0]), v[1], st.c.Add(v[1], v[2])))
}

// newBytes makes a fresh []byte with content s.
func (st *State) newBytes(s *Term) []*Term {
	r := st.newRef()
	st.wr("B", SStr, r, s)
	n := st.c.Len(s)
	return []*Term{r, st.c.Zero, n, n}
}

// setBytes overwrites the content of slice v with s (same length).
func (st *State) setBytes(v []*Term, s *Term) {
	c := st.c
	b := st.rd("B", SStr, v[0])
	if c.isZero(v[1]) && st.decide(c.Eq(c.Len(b), v[2])) == 1 {
		st.wr("B", SStr, v[0], s)
		return
	}
	st.Assume(c.Le(c.Add(v[1], v[3]), c.Len(b))) // a slice lies within its array
	pre, rest := st.take(b, v[1])
	_, post := st.take(rest, v[2])
	st.wr("B", SStr, v[0], c.Concat(pre, s, post))
}

// wrap converts to a machine integer.
func (st *State) wrap(x *Term, bits int, signed bool) *Term {
	c := st.c
	if w := c.wrapInt(x, bits, signed); w == x {
		return x
	}
	lo, hi := intRange(bits, signed)
	if st.valid(c.And(c.Le(c.BigInt(lo), x), c.Le(x, c.BigInt(hi)))) {
		return x
	}
	if _, isc := x.isInt(); st.optim && !isc && bits == 64 {
		st.Assume(c.And(c.Le(c.BigInt(lo), x), c.Le(x, c.BigInt(hi))))
		return x
	}
	return c.wrapInt(x, bits, signed)
}

// ---------- interpreter ----------

func (st *State) exec(fn *ssa.Function, args []SV, binds []SV) SV {
	if len(st.stack) > 40 {
		unsupported("inlining too deep: %s", strings.Join(st.stack, ">"))
	}
	name := st.c.P.fname(fn)
	n := 0
	for _, s := range st.stack {
		if s == name {
			n++
		}
	}
	if n >= 2 {
		unsupported("recursion without contract: %s", name)
	}
	st.stack = append(st.stack, name)
	fr := &Frame{fn: fn, env: map[ssa.Value]SV{}, active: map[*ssa.BasicBlock]*activeLoop{}, peels: map[*ssa.BasicBlock]int{}, label: name}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	r := st.run(fr, fn.Blocks[0], nil)
	st.stack = st.stack[:len(st.stack)-1]
	return r
}

func (st *State) run(fr *Frame, b, prev *ssa.BasicBlock) SV {
	li := st.c.P.loopsOf(fr.fn)
	for {
		start := 0
		if prev != nil {
			// leaving a scouted loop?
			for _, al := range fr.active {
				if al.scout != nil && al.lp.blocks[prev] && !al.lp.blocks[b] {
					st.end("scout: loop exit")
				}
			}
		}
		if fr.skip == b {
			fr.skip = nil
			start = len(headPhis(b))
			if start == 0 {
				start = -1
			}
		} else if lp := li.heads[b]; lp != nil {
			al := fr.active[b]
			thread := false
			if al != nil && prev != nil && lp.blocks[prev] {
				if thread = st.threadExit(fr, lp, prev); !thread {
					st.latch(fr, al, prev)
					return SV{}
				}
			}
			if prev != nil && !lp.blocks[prev] {
				delete(fr.peels, b)
			}
			if !thread && !st.tryPeel(fr, lp, prev) {
				st.enterLoop(fr, lp, prev)
				for start < len(b.Instrs) {
					if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
						break
					}
					start++
				}
				if start == 0 {
					start = -1
				}
			}
		}
		// phis in parallel
		if start == 0 {
			var vals []SV
			var ph []*ssa.Phi
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range b.Preds {
					if pr == prev {
						vals = append(vals, st.val(fr, p.Edges[i]))
						ph = append(ph, p)
						break
					}
				}
				start++
			}
			for i, p := range ph {
				fr.env[p] = vals[i]
			}
		}
		if start < 0 {
			start = 0
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[start:] {
			switch in := in.(type) {
			case *ssa.If:
				if st.Branch(st.val(fr, in.Cond).t[0]) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var rs []SV
				for _, r := range in.Results {
					rs = append(rs, st.val(fr, r))
				}
				for _, al := range fr.active {
					if al.scout != nil && al.lp.blocks[b] {
						st.end("scout: return")
					}
				}
				if len(rs) == 1 {
					return rs[0]
				}
				return SV{tup: rs}
			case *ssa.Panic:
				st.Prove(st.c.False, "nopanic/explicit panic in "+fr.label, st.c.U.PanicTag, st.c.P.pos(in.Pos()))
				st.end("panic")
			default:
				st.instr(fr, in)
			}
		}
		for _, al := range fr.active {
			if al.scout != nil && al.lp.blocks[b] && next != nil && !al.lp.blocks[next] {
				st.end("scout: loop exit")
			}
		}
		prev, b = b, next
	}
}

func (st *State) val(fr *Frame, v ssa.Value) SV {
	c := st.c
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return SV{t: st.zero(v.Type())}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return tv(c.Bool(constant.BoolVal(v.Value)))
		case constant.String:
			return tv(c.Lit(constant.StringVal(v.Value)))
		case constant.Int:
			if l := leaves(v.Type()); l[0].kind == kFloat {
				return tv(c.Var("float:"+v.Value.String(), SInt))
			}
			n, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
			return tv(c.BigInt(n))
		}
		return tv(c.Var("const:"+v.Value.String(), leaves(v.Type())[0].sort()))
	case *ssa.Global:
		return SV{addr: &Addr{glob: v, root: pointee(v.Type()), typ: pointee(v.Type())}}
	case *ssa.Function:
		return SV{fn: &FuncVal{fn: v}}
	case *ssa.Builtin:
		return SV{fn: &FuncVal{blt: v.Name()}}
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("undefined value %s in %s", v.Name(), fr.label)
	}
	return r
}

func (st *State) lv(fr *Frame, v ssa.Value) []*Term { return st.leavesOf(st.val(fr, v), v.Type()) }

func (st *State) instr(fr *Frame, in ssa.Instruction) {
	c := st.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := pointee(in.Type())
		fr.env[in] = SV{addr: &Addr{ref: st.alloc(t), root: t, typ: t}}
	case *ssa.BinOp:
		fr.env[in] = tv(st.binop(fr, in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := st.asAddr(st.val(fr, in.X), in.X.Type(), in.Pos(), fr)
			fr.env[in] = st.load(a)
		case token.NOT:
			fr.env[in] = tv(c.Not(st.lv(fr, in.X)[0]))
		case token.SUB:
			l := leaves(in.Type())[0]
			if l.kind == kFloat {
				fr.env[in] = tv(c.UF("fneg", SInt, st.lv(fr, in.X)[0]))
			} else {
				fr.env[in] = tv(st.wrap(c.ScaleI(st.lv(fr, in.X)[0], -1), l.bits, l.signed))
			}
		case token.ARROW:
			fr.env[in] = st.chanRecv(fr, in)
		case token.XOR:
			l := leaves(in.Type())[0]
			fr.env[in] = tv(st.wrap(c.Sub(c.Int(-1), st.lv(fr, in.X)[0]), l.bits, l.signed))
		default:
			unsupported("unop %s", in.Op)
		}
	case *ssa.Store:
		a := st.asAddr(st.val(fr, in.Addr), in.Addr.Type(), in.Pos(), fr)
		v := st.val(fr, in.Val)
		if v.fn != nil {
			unsupported("store of function value")
		}
		st.fieldHook(fr, in, a, v)
		st.store(a, st.leavesOf(v, in.Val.Type()))
	case *ssa.FieldAddr:
		a := st.asAddr(st.val(fr, in.X), in.X.Type(), in.Pos(), fr)
		f := pointee(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
		na := *a
		na.path = joinPath(a.path, f.Name())
		na.typ = f.Type()
		fr.env[in] = SV{addr: &na}
	case *ssa.Field:
		xs := st.lv(fr, in.X)
		lo, hi := fieldRange(in.X.Type(), in.Field)
		fr.env[in] = SV{t: xs[lo:hi]}
	case *ssa.IndexAddr:
		idx := st.lv(fr, in.Index)[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x := st.lv(fr, in.X)
			st.noPanic(c.And(c.Le(c.Zero, idx), c.Lt(idx, x[2])), "index out of range", in.Pos(), fr)
			fr.env[in] = SV{addr: &Addr{ref: x[0], idx: c.Add(x[1], idx), root: u.Elem(), typ: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a := st.asAddr(st.val(fr, in.X), in.X.Type(), in.Pos(), fr)
			if a.glob != nil || a.path != "" || a.idx != nil {
				unsupported("index of nested array")
			}
			st.noPanic(c.And(c.Le(c.Zero, idx), c.Lt(idx, c.Int(at.Len()))), "index out of range", in.Pos(), fr)
			fr.env[in] = SV{addr: &Addr{ref: a.ref, idx: idx, root: at.Elem(), typ: at.Elem()}}
		}
	case *ssa.Index:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := st.lv(fr, in.X)[0]
			i := st.lv(fr, in.Index)[0]
			st.noPanic(c.And(c.Le(c.Zero, i), c.Lt(i, c.Len(s))), "index out of range", in.Pos(), fr)
			fr.env[in] = tv(st.atByte(s, i))
			return
		}
		at, ok := in.X.Type().Underlying().(*types.Array)
		if !ok {
			unsupported("index of %s", in.X.Type())
		}
		idx := st.lv(fr, in.Index)[0]
		st.noPanic(c.And(c.Le(c.Zero, idx), c.Lt(idx, c.Int(at.Len()))), "index out of range", in.Pos(), fr)
		fr.env[in] = SV{t: st.elemLeaves(at.Elem(), st.lv(fr, in.X)[0], idx)}
	case *ssa.Slice:
		fr.env[in] = st.sliceOp(fr, in)
	case *ssa.MakeSlice:
		n := st.lv(fr, in.Len)[0]
		cp := st.lv(fr, in.Cap)[0]
		elem := in.Type().Underlying().(*types.Slice).Elem()
		st.noPanic(c.And(c.Le(c.Zero, n), c.Le(n, cp)), "makeslice: len out of range", in.Pos(), fr)
		st.allocBound(n, elem, in.Pos(), fr)
		r := st.newRef()
		st.initBacking(r, elem, n)
		fr.env[in] = tv(r, c.Zero, n, cp)
	case *ssa.MakeMap:
		if in.Reserve != nil {
			st.allocBound(st.lv(fr, in.Reserve)[0], in.Type().Underlying().(*types.Map).Elem(), in.Pos(), fr)
		}
		fr.env[in] = tv(st.newMap(in.Type()))
	case *ssa.MakeChan:
		r := st.newRef()
		n := st.lv(fr, in.Size)[0]
		st.noPanic(c.Le(c.Zero, n), "makechan: size out of range", in.Pos(), fr)
		st.wr("G:chlen", SInt, r, c.Zero)
		st.wr("G:chcap", SInt, r, n)
		st.wr("G:owner", SInt, r, c.Zero)
		fr.env[in] = tv(r)
	case *ssa.MapUpdate:
		m := st.lv(fr, in.Map)[0]
		st.noPanic(c.Neq(m, c.Zero), "assignment to entry in nil map", in.Pos(), fr)
		st.mapSet(in.Map.Type(), m, st.lv(fr, in.Key)[0], st.leavesOf(st.val(fr, in.Value), in.Value.Type()))
	case *ssa.Lookup:
		fr.env[in] = st.lookup(fr, in)
	case *ssa.Range:
		m := st.lv(fr, in.X)[0]
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			unsupported("range over string")
		}
		st.mapOnly(mt)
		r := st.newRef()
		st.wr("I:pos", SInt, r, c.Zero)
		fr.env[in] = tv(r, m, st.mapHas(m), st.mapLen(m), st.mapVal(m))
	case *ssa.Next:
		it := st.val(fr, in.Iter).t
		pos := st.rd("I:pos", SInt, it[0])
		if st.Branch(c.Lt(pos, it[3])) {
			if st.mapHas(it[1]) != it[2] {
				unsupported("map modified while ranging")
			}
			k := st.mapOrd(it[1], it[2], it[3], pos)
			st.wr("I:pos", SInt, it[0], c.AddI(pos, 1))
			fr.env[in] = SV{tup: []SV{tv(c.True), tv(k), tv(c.Select(it[4], k))}}
		} else {
			fr.env[in] = SV{tup: []SV{tv(c.False), tv(c.Empty), tv(c.Nil())}}
		}
	case *ssa.Extract:
		x := st.val(fr, in.Tuple)
		if x.tup == nil {
			unsupported("extract from non-tuple")
		}
		fr.env[in] = x.tup[in.Index]
	case *ssa.MakeInterface:
		fr.env[in] = tv(st.makeIface(st.val(fr, in.X), in.X.Type()))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var x ssa.Value
		if ci, ok := in.(*ssa.ChangeInterface); ok {
			x = ci.X
		} else {
			x = in.(*ssa.ChangeType).X
		}
		fr.env[in.(ssa.Value)] = st.val(fr, x)
	case *ssa.Convert:
		fr.env[in] = st.convert(fr, in)
	case *ssa.TypeAssert:
		fr.env[in] = st.typeAssert(fr, in)
	case *ssa.Call:
		r := st.call(fr, &in.Call, in.Pos())
		fr.env[in] = r
	case *ssa.Defer:
		call := in.Call
		// evaluate operands now
		if call.IsInvoke() {
			recv := st.val(fr, call.Value)
			args := st.args(fr, &call)
			fr.defers = append(fr.defers, func(st *State) { st.invoke(fr, recv, call.Value.Type(), call.Method, args, in.Pos()) })
		} else {
			f := st.val(fr, call.Value)
			args := st.args(fr, &call)
			fr.defers = append(fr.defers, func(st *State) { st.callVal(fr, f, args, &call, in.Pos()) })
		}
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			d(st)
		}
	case *ssa.MakeClosure:
		var bs []SV
		for _, b := range in.Bindings {
			bs = append(bs, st.val(fr, b))
		}
		fr.env[in] = SV{fn: &FuncVal{fn: in.Fn.(*ssa.Function), binds: bs}}
	case *ssa.Send:
		st.chanSend(fr, in)
	case *ssa.Select:
		fr.env[in] = st.selectOp(fr, in)
	case *ssa.Go:
		unsupported("go statement")
	default:
		unsupported("instruction %T", in)
	}
}

func (st *State) args(fr *Frame, call *ssa.CallCommon) []SV {
	var out []SV
	for _, a := range call.Args {
		out = append(out, st.val(fr, a))
	}
	return out
}

func (st *State) makeIface(v SV, t types.Type) *Term {
	c := st.c
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.t[0]
	}
	ls := st.leavesOf(v, t)
	if typeName(t) == "*crypto/tls.Conn" { // a socket like any other
		return c.Ctor("other", ls...)
	}
	n := c.ctorFor(t)
	return c.Ctor(n, ls...)
}

func (st *State) mapOnly(mt *types.Map) {
	if typeName(mt) != tMap {
		unsupported("map type %s", typeName(mt))
	}
}

func (st *State) newMap(t types.Type) *Term {
	c := st.c
	r := st.newRef()
	if mt := t.Underlying().(*types.Map); typeName(mt) != tMap {
		st.wr("M:other", SInt, r, c.Zero)
		return r
	}
	st.wr("M:has", arrSort(SStr, SBool), r, c.ConstArr(arrSort(SStr, SBool), c.False))
	st.wr("M:val", arrSort(SStr, SAny), r, c.ConstArr(arrSort(SStr, SAny), c.Nil()))
	st.wr("M:len", SInt, r, c.Zero)
	return r
}

func (st *State) mapSet(t types.Type, m, k *Term, v []*Term) {
	c := st.c
	if mt := t.Underlying().(*types.Map); typeName(mt) != tMap {
		unsupported("map type %s", typeName(mt))
	}
	k = st.normT(k)
	has, val, ln := st.mapHas(m), st.mapVal(m), st.mapLen(m)
	present := c.Select(has, k)
	switch st.decide(present) {
	case 1:
	case -1:
		st.wr("M:len", SInt, m, c.AddI(ln, 1))
	default:
		st.wr("M:len", SInt, m, c.Add(ln, c.Ite(present, c.Zero, c.Int(1))))
	}
	st.wr("M:has", arrSort(SStr, SBool), m, c.Store(has, k, c.True))
	st.wr("M:val", arrSort(SStr, SAny), m, c.Store(val, k, v[0]))
}

func (st *State) lookup(fr *Frame, in *ssa.Lookup) SV {
	c := st.c
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		s := st.lv(fr, in.X)[0]
		i := st.lv(fr, in.Index)[0]
		st.noPanic(c.And(c.Le(c.Zero, i), c.Lt(i, c.Len(s))), "index out of range", in.Pos(), fr)
		return tv(st.atByte(s, i))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if typeName(mt) != tMap {
		v := st.freshVal("lookup", mt.Elem())
		if in.CommaOk {
			return SV{tup: []SV{v, tv(c.Fresh("ok", SBool))}}
		}
		return v
	}
	m := st.lv(fr, in.X)[0]
	k := st.normT(st.lv(fr, in.Index)[0])
	has := c.And(c.Neq(m, c.Zero), c.Select(st.mapHas(m), k))
	v := c.Select(st.mapVal(m), k)
	if in.CommaOk {
		if st.Branch(has) {
			return SV{tup: []SV{tv(v), tv(c.True)}}
		}
		return SV{tup: []SV{tv(c.Nil()), tv(c.False)}}
	}
	if st.Branch(has) {
		return tv(v)
	}
	return tv(c.Nil())
}

func (st *State) sliceOp(fr *Frame, in *ssa.Slice) SV {
	c := st.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return st.lv(fr, v)[0]
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := st.lv(fr, in.X)[0]
		lo := get(in.Low, c.Zero)
		hi := get(in.High, c.Len(s))
		st.noPanic(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, c.Len(s))), "slice bounds out of range", in.Pos(), fr)
		return tv(st.normT(c.SubS(s, lo, hi)))
	case *types.Slice:
		x := st.lv(fr, in.X)
		lo := get(in.Low, c.Zero)
		hi := get(in.High, x[2])
		mx := get(in.Max, x[3])
		st.noPanic(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, x[3])), "slice bounds out of range", in.Pos(), fr)
		return tv(x[0], c.Add(x[1], lo), c.Sub(hi, lo), c.Sub(mx, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := st.asAddr(st.val(fr, in.X), in.X.Type(), in.Pos(), fr)
		lo := get(in.Low, c.Zero)
		n := c.Int(at.Len())
		hi := get(in.High, n)
		mx := get(in.Max, n)
		st.noPanic(c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "slice bounds out of range", in.Pos(), fr)
		return tv(a.ref, lo, c.Sub(hi, lo), c.Sub(mx, lo))
	}
	unsupported("slice of %s", in.X.Type())
	return SV{}
}

func (st *State) binop(fr *Frame, in *ssa.BinOp) *Term {
	c := st.c
	x, y := st.lv(fr, in.X), st.lv(fr, in.Y)
	xt := in.X.Type()
	ls := leaves(xt)
	if in.Op == token.EQL || in.Op == token.NEQ {
		var r *Term
		switch ls[0].kind {
		case kStr:
			r = st.strEq(x[0], y[0])
		case kAny:
			xa, ya := x[0], y[0]
			if _, ok := in.Y.Type().Underlying().(*types.Interface); !ok {
				ya = st.makeIface(st.val(fr, in.Y), in.Y.Type())
			}
			r = c.Eq(xa, ya)
		case kSlRef:
			r = c.Eq(x[0], y[0])
		default:
			if len(x) == 0 {
				return c.True
			}
			r = c.True
			for i := range x {
				r = c.And(r, c.Eq(x[i], y[i]))
			}
		}
		if ls[0].kind == kAny && len(leaves(in.Y.Type())) == 1 && leaves(in.Y.Type())[0].kind != kAny {
			// handled above
		} else if ls[0].kind != kAny && leaves(in.Y.Type())[0].kind == kAny {
			r = c.Eq(st.makeIface(st.val(fr, in.X), xt), y[0])
		}
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	switch ls[0].kind {
	case kStr:
		switch in.Op {
		case token.ADD:
			return c.Concat(x[0], y[0])
		}
		return c.UF("strcmp"+in.Op.String(), SBool, x[0], y[0])
	case kFloat:
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return c.UF("fcmp"+in.Op.String(), SBool, x[0], y[0])
		}
		return c.UF("farith"+in.Op.String(), SInt, x[0], y[0])
	}
	a, b := x[0], y[0]
	switch in.Op {
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	}
	l := ls[0]
	if l.kind != kInt {
		unsupported("binop %s on %s", in.Op, xt)
	}
	var r *Term
	switch in.Op {
	case token.ADD:
		r = c.Add(a, b)
	case token.SUB:
		r = c.Sub(a, b)
	case token.MUL:
		r = c.Mul(a, b)
	case token.QUO, token.REM:
		st.noPanic(c.Neq(b, c.Zero), "integer divide by zero", in.Pos(), fr)
		if n, ok := b.isInt(); ok && n.Sign() > 0 && st.valid(c.Le(c.Zero, a)) {
			if in.Op == token.QUO {
				r = c.Div(a, n)
			} else {
				r = c.Mod(a, n)
			}
		} else {
			r = c.UF("arith"+in.Op.String(), SInt, a, b)
		}
	case token.SHL:
		if n, ok := b.intVal(); ok && n < 64 {
			r = c.Scale(a, pow2(int(n)))
		} else {
			r = c.UF("arith"+in.Op.String(), SInt, a, b)
		}
	case token.SHR:
		if n, ok := b.intVal(); ok && n < 64 {
			r = c.Div(a, pow2(int(n)))
		} else {
			r = c.UF("arith"+in.Op.String(), SInt, a, b)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		an, ok1 := a.isInt()
		bn, ok2 := b.isInt()
		if ok1 && ok2 {
			z := new(big.Int)
			switch in.Op {
			case token.AND:
				z.And(an, bn)
			case token.OR:
				z.Or(an, bn)
			case token.XOR:
				z.Xor(an, bn)
			default:
				z.AndNot(an, bn)
			}
			return c.BigInt(z)
		}
		if ok1 && !ok2 {
			a, b, bn, ok2 = b, a, an, true
		}
		if in.Op == token.AND && ok2 {
			if isPow2(new(big.Int).Add(bn, big.NewInt(1))) {
				return c.Mod(a, new(big.Int).Add(bn, big.NewInt(1)))
			}
			// high mask on a byte: a & 0xF0 == a - a mod 16
			if l.bits == 8 && !l.signed {
				inv := new(big.Int).Sub(big.NewInt(256), bn)
				if isPow2(inv) {
					return c.Sub(a, c.Mod(a, inv))
				}
			}
		}
		if in.Op == token.OR && ok2 && bn.Sign() >= 0 {
			// disjoint bits: a | k == a + k when a < lowest set bit of k
			low := new(big.Int).And(bn, new(big.Int).Neg(bn))
			if bn.Sign() > 0 && st.valid(c.And(c.Le(c.Zero, a), c.Lt(a, c.BigInt(low)))) {
				return c.Add(a, c.BigInt(bn))
			}
			if bn.Sign() == 0 {
				return a
			}
		}
		if in.Op == token.OR && !ok2 {
			// (x << k) | y with y < 2^k
			for k := 8; k <= 56; k += 8 {
				for _, pr := range [][2]*Term{{a, b}, {b, a}} {
					if c.Mod(pr[0], pow2(k)).isZeroLit() && st.valid(c.And(c.Le(c.Zero, pr[1]), c.Lt(pr[1], c.BigInt(pow2(k))))) {
						return c.Add(a, b)
					}
				}
			}
		}
		r = c.UF("bit"+in.Op.String(), SInt, a, b)
		c.addFact(r, c.leafFacts([]Leaf{l}, []*Term{r})...)
		return r
	default:
		unsupported("binop %s", in.Op)
	}
	return st.wrap(r, l.bits, l.signed)
}

func (t *Term) isZeroLit() bool { n, ok := t.intVal(); return ok && n == 0 }

func (st *State) strEq(a, b *Term) *Term {
	c := st.c
	a, b = st.normT(a), st.normT(b)
	if a == b {
		return c.True
	}
	// literal against structured
	la, ok1 := a.litVal()
	lb, ok2 := b.litVal()
	if ok1 && ok2 {
		return c.Bool(la == lb)
	}
	if ok1 {
		a, b, lb, ok2 = b, a, la, true
	}
	if ok2 && len(lb) <= 32 && (a.op == OConcat || a.op == OUnit || a.op == OSub) {
		// bytewise
		r := c.Eq(c.Len(a), c.Int(int64(len(lb))))
		if st.decide(r) == -1 {
			return c.False
		}
		if !st.Branch(r) {
			return c.False
		}
		e := c.True
		for i := 0; i < len(lb); i++ {
			e = c.And(e, c.Eq(st.atByte(a, c.Int(int64(i))), c.Int(int64(lb[i]))))
		}
		if a.op == OSub {
			if !st.Branch(e) {
				return c.False
			}
			st.Assume(c.Eq(a, b)) // the same bytes
			return c.True
		}
		return e
	}
	return c.Eq(a, b)
}

func (st *State) convert(fr *Frame, in *ssa.Convert) SV {
	c := st.c
	from, to := leaves(in.X.Type()), leaves(in.Type())
	x := st.lv(fr, in.X)
	switch {
	case from[0].kind == kInt && to[0].kind == kInt:
		return tv(st.wrap(x[0], to[0].bits, to[0].signed))
	case from[0].kind == kStr && to[0].kind == kSlRef:
		return SV{t: st.newBytes(x[0])}
	case from[0].kind == kSlRef && to[0].kind == kStr:
		return tv(st.bytesOf(x))
	case from[0].kind == kStr && to[0].kind == kStr:
		return tv(x[0])
	case from[0].kind == kInt && to[0].kind == kStr:
		return tv(c.UF("runestr", SStr, x[0]))
	case from[0].kind == kFloat && to[0].kind == kFloat:
		fb := in.X.Type().Underlying().(*types.Basic).Kind()
		tb := in.Type().Underlying().(*types.Basic).Kind()
		if fb == types.Float32 && tb == types.Float64 {
			return tv(c.UF("f32to64", SInt, x[0]))
		}
		if fb == tb {
			return tv(x[0])
		}
		return tv(c.UF("f64to32", SInt, x[0]))
	case from[0].kind == kInt && to[0].kind == kFloat:
		return tv(c.UF("i2f", SInt, x[0]))
	case from[0].kind == kFloat && to[0].kind == kInt:
		r := c.UF("f2i", SInt, x[0])
		return tv(st.wrap(r, to[0].bits, to[0].signed))
	case from[0].kind == kRef && to[0].kind == kRef:
		return st.val(fr, in.X)
	}
	unsupported("convert %s to %s", in.X.Type(), in.Type())
	return SV{}
}

// implCond: v's dynamic type implements interface it.
func (st *State) implCond(v *Term, it *types.Interface, itName string) *Term {
	c := st.c
	r := c.False
	if n := st.ctorOf(v); n != "" && n != "other" && n != "list" {
		return c.Bool(c.implements(n, it))
	}
	for _, n := range c.ctorL {
		if n == "nil" || n == "other" {
			continue
		}
		if c.implements(n, it) {
			r = c.Or(r, c.Is(n, v))
		}
	}
	return c.Or(r, c.And(c.Is("other", v), c.otherImpl(v, it, itName)))
}

func (c *Ctx) otherImpl(v *Term, it *types.Interface, itName string) *Term {
	if it.NumMethods() == 0 {
		return c.True
	}
	switch itName {
	case "structures.Structure":
		return c.UF("isStructure", SBool, v)
	}
	return c.UF("impl:"+itName, SBool, v)
}

func (c *Ctx) implements(n string, it *types.Interface) bool {
	t := c.ctorType(n)
	return t != nil && types.Implements(t, it)
}

func (st *State) typeAssert(fr *Frame, in *ssa.TypeAssert) SV {
	c := st.c
	v := st.lv(fr, in.X)[0]
	st.instMatch(v)
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		cond := c.And(c.Not(c.Is("nil", v)), st.implCond(v, it, typeName(in.AssertedType)))
		if !in.CommaOk {
			st.noPanic(cond, "interface conversion", in.Pos(), fr)
			return tv(v)
		}
		if st.Branch(cond) {
			return SV{tup: []SV{tv(v), tv(c.True)}}
		}
		return SV{tup: []SV{tv(c.Nil()), tv(c.False)}}
	}
	n := c.ctorFor(in.AssertedType)
	cond := c.Is(n, v)
	if n == tSlice && v.op == OList {
		unsupported("type assertion on spec list")
	}
	if !in.CommaOk {
		st.noPanic(cond, "interface conversion to "+n, in.Pos(), fr)
		return SV{t: c.unpack(n, v)}
	}
	if st.Branch(cond) {
		return SV{tup: []SV{{t: c.unpack(n, v)}, tv(c.True)}}
	}
	return SV{tup: []SV{{t: st.zero(in.AssertedType)}, tv(c.False)}}
}

// ---------- calls ----------

func (st *State) call(fr *Frame, call *ssa.CallCommon, pos token.Pos) SV {
	if call.IsInvoke() {
		return st.invoke(fr, st.val(fr, call.Value), call.Value.Type(), call.Method, st.args(fr, call), pos)
	}
	return st.callVal(fr, st.val(fr, call.Value), st.args(fr, call), call, pos)
}

func (st *State) callVal(fr *Frame, f SV, args []SV, call *ssa.CallCommon, pos token.Pos) SV {
	if f.fn == nil {
		unsupported("call of unknown function value in %s", fr.label)
	}
	if f.fn.blt != "" {
		return st.builtin(fr, f.fn.blt, args, call, pos)
	}
	return st.callFn(fr, f.fn.fn, args, f.fn.binds, pos)
}

func (st *State) callFn(fr *Frame, fn *ssa.Function, args, binds []SV, pos token.Pos) SV {
	u := st.c.U
	name := fn.RelString(nil)
	if lib, ok := libFuncs[name]; ok {
		u.Lib[name] = true
		return lib(&libCall{st: st, fr: fr, fn: fn, args: args, pos: pos})
	}
	if st.c.P.inRepo(fn) {
		short := st.c.P.key(fn)
		if strings.HasPrefix(short, "log.") {
			u.Lib["(repo) "+short] = true
			return st.logCall(short, fn)
		}
		if con := u.contractFor(short, st, args); con != nil {
			return st.applyContract(fr, con, fn, args, pos)
		}
		if fn.Synthetic == "" {
			u.Inlined[short] = true
		}
		return st.exec(fn, args, binds)
	}
	if fn.Pkg == st.c.P.stdpkg {
		if con := u.contractFor(st.c.P.key(fn), st, args); con != nil {
			return st.applyContract(fr, con, fn, args, pos)
		}
		return st.exec(fn, args, binds)
	}
	// unmodelled external function: arbitrary results, no effect on the modelled heap
	u.Assumed["external function without model: "+name+" (arbitrary result, no effect on driver state)"] = true
	return st.freshResults(fn.Signature, "ext")
}

func (st *State) freshResults(sig *types.Signature, prefix string) SV {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return SV{tup: []SV{}}
	case 1:
		return st.freshVal(prefix, rs.At(0).Type())
	}
	var out []SV
	for i := 0; i < rs.Len(); i++ {
		out = append(out, st.freshVal(prefix, rs.At(i).Type()))
	}
	return SV{tup: out}
}

func (p *Program) key(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return shortPkg(n.Obj().Pkg().Path()) + ".(" + n.Obj().Name() + ")." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return shortPkg(fn.Pkg.Pkg.Path()) + "." + fn.Name()
	}
	return fn.String()
}

// invoke calls an interface method.
func (st *State) invoke(fr *Frame, recv SV, it types.Type, m *types.Func, args []SV, pos token.Pos) SV {
	c := st.c
	v := recv.t[0]
	iname := typeName(it)
	n := st.ctorOf(v)
	if n == "" {
		st.noPanic(c.Not(c.Is("nil", v)), "call of method "+m.Name()+" on nil interface", pos, fr)
		ifc := it.Underlying().(*types.Interface)
		for _, k := range append([]string(nil), c.ctorL...) {
			if k == "nil" || k == "other" || !c.implements(k, ifc) {
				continue
			}
			if st.Branch(c.Is(k, v)) {
				n = k
				break
			}
		}
		if n == "" {
			n = "other"
			st.Assume(c.Is("other", v))
		}
	}
	if n == "nil" {
		st.noPanic(c.False, "call of method "+m.Name()+" on nil interface", pos, fr)
		st.end("nil invoke")
	}
	if n == "other" {
		if lib, ok := libIface[iname+"."+m.Name()]; ok {
			c.U.Lib["(interface) "+iname+"."+m.Name()] = true
			return lib(&libCall{st: st, fr: fr, recv: v, args: args, pos: pos, sig: m.Type().(*types.Signature)})
		}
		c.U.Assumed["interface method without model: "+iname+"."+m.Name()] = true
		return st.freshResults(m.Type().(*types.Signature), "ext")
	}
	t := c.ctorType(n)
	sel := c.P.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsupported("no method %s on %s", m.Name(), n)
	}
	fn := c.P.ssa.MethodValue(sel)
	rv := SV{t: c.unpack(n, v)}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		// pointer receiver
	}
	return st.callFn(fr, fn, append([]SV{rv}, args...), nil, pos)
}
