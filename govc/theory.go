package main

// Specification functions: the PackStream representation of a value (pack),
// which values have one (enc), equality of decoded and encoded values (same)
// and the innermost error (inn).

import (
	"fmt"
	"go/types"
	"math/big"
)

const (
	tSlice = "[]interface{}"
	tMap   = "map[string]interface{}"
	tErr   = "*errors.Error"
)

// structure table: signature and fields (paths in the Go struct), from the
// Bolt v1 protocol description, not from the code.
type structSpec struct {
	sig    int64
	fields []string
}

var structSpecs = map[string]structSpec{
	"graph.Node":                 {0x4E, []string{"NodeIdentity", "Labels", "Properties"}},
	"graph.Relationship":         {0x52, []string{"RelIdentity", "StartNodeIdentity", "EndNodeIdentity", "Type", "Properties"}},
	"graph.UnboundRelationship":  {0x72, []string{"RelIdentity", "Type", "Properties"}},
	"graph.Path":                 {0x50, []string{"Nodes", "Relationships", "Sequence"}},
	"messages.InitMessage":       {0x01, []string{"clientName", "authToken"}},
	"messages.RunMessage":        {0x10, []string{"statement", "parameters"}},
	"messages.DiscardAllMessage": {0x2F, nil},
	"messages.PullAllMessage":    {0x3F, nil},
	"messages.AckFailureMessage": {0x0E, nil},
	"messages.ResetMessage":      {0x0F, nil},
	"messages.SuccessMessage":    {0x70, []string{"Metadata"}},
	"messages.RecordMessage":     {0x71, []string{"Fields"}},
	"messages.FailureMessage":    {0x7F, []string{"Metadata"}},
	"messages.IgnoredMessage":    {0x7E, nil},
}

// decodable structures (those a server may send or the driver decodes)
var decodable = []string{"graph.Node", "graph.Relationship", "graph.UnboundRelationship", "graph.Path",
	"messages.DiscardAllMessage", "messages.PullAllMessage", "messages.AckFailureMessage", "messages.ResetMessage",
	"messages.SuccessMessage", "messages.RecordMessage", "messages.FailureMessage", "messages.IgnoredMessage"}

var intCtors = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

func isIntCtor(n string) bool {
	for _, k := range intCtors {
		if k == n {
			return true
		}
	}
	return false
}

// value universe of the encoder: switch types, known structures, everything else ("other")
func encUniverse() []string {
	u := []string{"nil", "bool"}
	u = append(u, intCtors...)
	u = append(u, "float32", "float64", "string", tSlice, tMap)
	u = append(u, sortedKeys(structSpecs)...)
	return append(u, "other")
}

// decUniverse: canonical values (the result types of decoding)
func decUniverse() []string {
	u := []string{"nil", "bool", "int64", "float64", "string", tSlice, tMap}
	return append(u, decodable...)
}

func eName(elem types.Type, path string) string { return "E:" + typeName(elem) + ":" + path }
func fName(s types.Type, path string) string    { return "F:" + typeName(s) + "." + path }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// elemLeaves reads element i (absolute index) of a backing array.
func (st *State) elemLeaves(elem types.Type, ref, idx *Term) []*Term {
	c := st.c
	if isByte(elem) {
		if idx.bnd {
			return []*Term{c.At(st.rd("B", SStr, ref), idx)}
		}
		return []*Term{st.atByte(st.rd("B", SStr, ref), idx)}
	}
	ls := leaves(elem)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		arr := st.rd(eName(elem, l.path), arrSort(SInt, l.sort()), ref)
		out[i] = c.Select(arr, idx)
	}
	if !idx.bnd && !ref.bnd {
		st.typeFactsFor(ls, out)
	}
	return out
}

// lift turns typed leaves into a spec-level interface value.
func (st *State) lift(t types.Type, ls []*Term) *Term {
	c := st.c
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return ls[0]
	case *types.Slice:
		ref, off, n := ls[0], ls[1], ls[2]
		return c.List(n, func(j *Term) *Term {
			return st.lift(u.Elem(), st.elemLeaves(u.Elem(), ref, c.Add(off, j)))
		})
	}
	return c.Ctor(c.ctorFor(t), ls...)
}

// asList views a value of known constructor as a spec list.
func (st *State) asList(v *Term) *Term {
	switch {
	case v.op == OList:
		return v
	case st.ctorOf(v) == tSlice:
		p := st.c.unpack(tSlice, v)
		return st.lift(st.c.ctorType(tSlice), p)
	}
	if n := st.ctorOf(v); n != "" {
		if t := st.c.ctorType(n); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return st.lift(t, st.c.unpack(n, v))
			}
		}
	}
	return nil
}

func (st *State) isSliceCtor(n string) bool {
	if t := st.c.ctorType(n); t != nil {
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	return false
}

// map accessors
func (st *State) mapHas(ref *Term) *Term { return st.rd("M:has", arrSort(SStr, SBool), ref) }
func (st *State) mapVal(ref *Term) *Term { return st.rd("M:val", arrSort(SStr, SAny), ref) }
func (st *State) mapLen(ref *Term) *Term {
	c := st.c
	l := st.rd("M:len", SInt, ref)
	c.addFact(l, c.Le(c.Zero, l), c.Le(l, c.BigInt(pow2(48))), c.Implies(c.Eq(ref, c.Zero), c.Eq(l, c.Zero)))
	return l
}

// ordFacts: the enumeration of a map hits keys of the map, each once.
func (c *Ctx) ordFacts(k *Term) {
	has, j := k.args[0], k.args[1]
	if j.bnd || has.bnd {
		return
	}
	n := c.UF("ordn", SInt, has)
	c.addFact(k, c.Implies(c.And(c.Le(c.Zero, j), c.Lt(j, n)), c.And(c.Select(has, k), c.Eq(c.UF("ordidx", SInt, has, k), j))))
}

// mapOrd is the j-th key of the (arbitrary but fixed) enumeration of a map.
func (st *State) mapOrd(ref, has, n, j *Term) *Term {
	c := st.c
	k := c.UF("ord", SStr, has, j)
	if !has.bnd && !n.bnd {
		st.Assume(c.Eq(c.UF("ordn", SInt, has), n))
	}
	c.ordFacts(k)
	return k
}

func (st *State) structFields(n string, p []*Term) []*Term {
	c := st.c
	t := c.ctorType(n)
	su := t.Underlying().(*types.Struct)
	var out []*Term
	for _, f := range structSpecs[n].fields {
		off := 0
		found := false
		for i := 0; i < su.NumFields(); i++ {
			k := nLeaves(su.Field(i).Type())
			if su.Field(i).Name() == f {
				out = append(out, st.lift(su.Field(i).Type(), p[off:off+k]))
				found = true
			}
			off += k
		}
		if !found {
			panic(toolErr{"structure " + n + " has no field " + f})
		}
	}
	return out
}

func (c *Ctx) Pack(v *Term) *Term {
	t := c.UF("pack", SStr, v)
	c.addFact(t, c.Le(c.Int(1), c.Len(t)))
	return t
}
func (c *Ctx) PackInt(x *Term) *Term {
	t := c.UF("packint", SStr, x)
	l := c.Len(t)
	c.addFact(t, c.Le(c.Int(1), l), c.Le(l, c.Int(9)))
	return t
}

// header kinds
const (
	hStr = iota
	hList
	hMap
	hStruct
)

func (c *Ctx) PackHdr(kind int64, n *Term) *Term {
	t := c.UF("packhdr", SStr, c.Int(kind), n)
	l := c.Len(t)
	c.addFact(t, c.Le(c.Int(1), l), c.Le(l, c.Int(5)))
	return t
}

// packStep canonicalises pack(v) without unfolding content.
func (st *State) packStep(v *Term) *Term {
	c := st.c
	n := st.ctorOf(v)
	switch {
	case n == "":
		if st.knownInt(v) {
			return c.PackInt(c.IVal(v))
		}
		return nil
	case isIntCtor(n):
		return c.PackInt(c.unpack(n, v)[0])
	case n == "float32":
		return c.Pack(c.Ctor("float64", c.UF("f32to64", SInt, c.unpack(n, v)[0])))
	case n != "list" && st.isSliceCtor(n):
		return c.Pack(st.asList(v))
	}
	// destructure symbolic values with known constructor
	if v.op != OCtor && v.op != OList && n != "other" {
		return c.Pack(c.Ctor(n, c.unpack(n, v)...))
	}
	if n == "other" && v.op != OList {
		if st.decide(c.UF("isStructure", SBool, v)) == -1 && st.decide(c.Eq(c.UF("rkind", SInt, v), c.Int(23))) == 1 {
			return c.Pack(st.otherList(v))
		}
	}
	return nil
}

func (st *State) otherList(v *Term) *Term {
	c := st.c
	ln := c.UF("rlen", SInt, v)
	c.addFact(ln, c.Le(c.Zero, ln), c.Le(ln, c.BigInt(pow2(48))))
	return c.List(ln, func(j *Term) *Term { return c.UF("ridx", SAny, v, j) })
}

func (st *State) otherFields(v *Term) (arr, n *Term) {
	c := st.c
	n = c.UF("nfields", SInt, v)
	c.addFact(n, c.Le(c.Zero, n), c.Le(n, c.BigInt(pow2(48))))
	return c.UF("fieldsArr", arrSort(SInt, SAny), v), n
}

// packForce unfolds pack(v) one level.
func (st *State) packForce(v *Term, force bool) *Term {
	c := st.c
	n := st.ctorOf(v)
	if n == "" {
		if st.knownInt(v) {
			return c.PackInt(c.IVal(v))
		}
		if !force {
			return nil
		}
		if st.Branch(c.IsInt(v)) {
			return c.PackInt(c.IVal(v))
		}
		for _, k := range decCases() {
			if st.Branch(c.Is(k, v)) {
				n = k
				break
			}
		}
		if n == "" {
			return nil
		}
	}
	switch n {
	case "nil":
		return c.Lit("\xC0")
	case "bool":
		return c.Ite(c.unpack(n, v)[0], c.Lit("\xC3"), c.Lit("\xC2"))
	case "float64":
		return c.Concat(c.Lit("\xC1"), c.BytesBE(c.unpack(n, v)[0], 8))
	case "string":
		s := c.unpack(n, v)[0]
		return c.Concat(c.PackHdr(hStr, c.Len(s)), s)
	case "list":
		ln := v.args[2]
		return c.Concat(c.PackHdr(hList, ln), c.Fold(c.Zero, ln, func(j *Term) *Term { return c.Pack(c.Inst(v, j)) }))
	case tMap:
		ref := c.unpack(n, v)[0]
		has, val, ln := st.mapHas(ref), st.mapVal(ref), st.mapLen(ref)
		return c.Concat(c.PackHdr(hMap, ln), c.Fold(c.Zero, ln, func(j *Term) *Term {
			k := st.mapOrd(ref, has, ln, j)
			return c.Concat(c.Pack(c.Ctor("string", k)), c.Pack(c.Select(val, k)))
		}))
	case "other":
		if st.decide(c.UF("isStructure", SBool, v)) == 1 {
			arr, nf := st.otherFields(v)
			return c.Concat(c.PackHdr(hStruct, nf), c.Unit(c.ByteOf(c.UF("sigOf", SInt, v), 0)),
				c.Fold(c.Zero, nf, func(j *Term) *Term { return c.Pack(c.Select(arr, j)) }))
		}
		return nil
	}
	if sp, ok := structSpecs[n]; ok {
		fs := st.structFields(n, c.unpack(n, v))
		ps := []*Term{c.PackHdr(hStruct, c.Int(int64(len(fs)))), c.Lit(string([]byte{byte(sp.sig)}))}
		for _, f := range fs {
			ps = append(ps, c.Pack(f))
		}
		return c.Concat(ps...)
	}
	if r := st.packStep(v); r != nil {
		return r
	}
	return nil
}

// classSplit finds the class of n, forking if allowed.
func (st *State) classSplit(conds []*Term, force bool) int {
	for i, k := range conds {
		switch st.decide(k) {
		case 1:
			return i
		case -1:
			continue
		}
		if !force {
			return -1
		}
		if st.Branch(k) {
			return i
		}
	}
	return len(conds)
}

// packDef unfolds packint / packhdr by size class.
func (st *State) packDef(p *Term, force bool) *Term {
	c := st.c
	in := func(x *Term, lo, hi *big.Int) *Term {
		return c.And(c.Le(c.BigInt(lo), x), c.Le(x, c.BigInt(hi)))
	}
	bi := big.NewInt
	if p.s == "packint" {
		x := p.args[0]
		lo16, hi16 := intRange(16, true)
		lo32, hi32 := intRange(32, true)
		switch st.classSplit([]*Term{in(x, bi(-16), bi(127)), in(x, bi(-128), bi(-17)), in(x, lo16, hi16), in(x, lo32, hi32)}, force) {
		case -1:
			return nil
		case 0:
			return c.Unit(c.ByteOf(x, 0))
		case 1:
			return c.Concat(c.Lit("\xC8"), c.BytesBE(x, 1))
		case 2:
			return c.Concat(c.Lit("\xC9"), c.BytesBE(x, 2))
		case 3:
			return c.Concat(c.Lit("\xCA"), c.BytesBE(x, 4))
		}
		return c.Concat(c.Lit("\xCB"), c.BytesBE(x, 8))
	}
	kind, _ := p.args[0].intVal()
	n := p.args[1]
	tiny := []int64{0x80, 0x90, 0xA0, 0xB0}[kind]
	mk := [][]byte{{0xD0, 0xD1, 0xD2}, {0xD4, 0xD5, 0xD6}, {0xD8, 0xD9, 0xDA}, {0xDC, 0xDD, 0}}[kind]
	switch st.classSplit([]*Term{c.Le(n, c.Int(15)), c.Le(n, c.Int(255)), c.Le(n, c.Int(65535))}, force) {
	case -1:
		return nil
	case 0:
		return c.Unit(c.AddI(n, tiny))
	case 1:
		return c.Concat(c.Lit(string(mk[0:1])), c.BytesBE(n, 1))
	case 2:
		return c.Concat(c.Lit(string(mk[1:2])), c.BytesBE(n, 2))
	}
	return c.Concat(c.Lit(string(mk[2:3])), c.BytesBE(n, 4))
}

func intRange(bits int, signed bool) (*big.Int, *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

// --- enc ---

func (c *Ctx) Enc(v *Term) *Term { return c.UF("enc", SBool, v) }

// unfoldEnc gives the definition of enc(v) when the constructor is known.
func (st *State) unfoldEnc(v *Term) *Term {
	c := st.c
	max32 := c.BigInt(new(big.Int).Sub(pow2(32), big.NewInt(1)))
	n := st.ctorOf(v)
	list := func(l *Term) *Term {
		ln := l.args[2]
		return c.And(c.Le(ln, max32), c.ForallRange(ln, func(j *Term) *Term { return st.encE(c.Inst(l, j)) }))
	}
	switch {
	case n == "":
		return nil
	case n == "uint64" || n == "uint":
		_, hi := intRange(64, true)
		return c.Le(c.unpack(n, v)[0], c.BigInt(hi))
	case n == "nil", n == "bool", isIntCtor(n), n == "float32", n == "float64":
		return c.True
	case n == "string":
		return c.Le(c.Len(c.unpack(n, v)[0]), max32)
	case n == "list" || st.isSliceCtor(n):
		return list(st.asList(v))
	case n == tMap:
		ref := c.unpack(n, v)[0]
		has, val, ln := st.mapHas(ref), st.mapVal(ref), st.mapLen(ref)
		return c.And(c.Le(ln, max32), c.ForallRange(ln, func(j *Term) *Term {
			k := st.mapOrd(ref, has, ln, j)
			return c.And(st.encE(c.Ctor("string", k)), c.Enc(c.Select(val, k)))
		}))
	case n == "other":
		switch st.decide(c.UF("isStructure", SBool, v)) {
		case 1:
			arr, nf := st.otherFields(v)
			return c.And(c.Le(nf, c.Int(65535)), c.ForallRange(nf, func(j *Term) *Term { return c.Enc(c.Select(arr, j)) }))
		case 0:
			return nil
		}
		switch st.decide(c.Eq(c.UF("rkind", SInt, v), c.Int(23))) {
		case 1:
			return list(st.otherList(v))
		case -1:
			return c.False
		}
		return nil
	}
	if _, ok := structSpecs[n]; ok {
		r := c.True
		for _, f := range st.structFields(n, c.unpack(n, v)) {
			r = c.And(r, st.encE(f))
		}
		return r
	}
	return c.False
}

// encE unfolds where the constructor is syntactically known.
func (st *State) encE(v *Term) *Term {
	if v.op == OCtor && v.s != "other" && v.s != tMap && v.s != tSlice || v.op == OList {
		if e := st.unfoldEnc(v); e != nil {
			return e
		}
	}
	return st.c.Enc(v)
}

// ForallRange is  forall 0 <= j < n. f(j)  with automatically chosen patterns.
func (c *Ctx) ForallRange(n *Term, f func(j *Term) *Term) *Term {
	return c.ForallLoHi(c.Zero, n, f)
}
func (c *Ctx) ForallLoHi(lo, hi *Term, f func(j *Term) *Term) *Term {
	if d, ok := c.Sub(hi, lo).intVal(); ok && d <= 4 {
		r := c.True
		for i := int64(0); i < d; i++ {
			r = c.And(r, f(c.AddI(lo, i)))
		}
		return r
	}
	q := c.Forall(SInt, func(j *Term) *Term {
		return c.Implies(c.And(c.Le(lo, j), c.Lt(j, hi)), f(j))
	})
	if q.op != OForall {
		return q
	}
	return c.withPatterns(q)
}

// withPatterns adds trigger terms: select(_, j+k), ord(_, j), UFs on j.
func (c *Ctx) withPatterns(q *Term) *Term {
	bv := q.args[0]
	seen := map[*Term]bool{}
	var sel, other []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bnd || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall || t.op == OFold || t.op == OList {
			return
		}
		if t.op == OSelect && t.args[1] == bv && !t.args[0].bnd {
			sel = append(sel, t)
		} else if t.op == OUF {
			for _, a := range t.args {
				if a == bv {
					if t.s == "ord" || t.s == "ordidx" || t.s == "ridx" {
						sel = append(sel, t)
					} else {
						other = append(other, t)
					}
					break
				}
			}
		} else if t.op == OSelect && t.args[1].bnd && !t.args[0].bnd {
			other = append(other, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q.args[1])
	ps := sel
	if len(ps) == 0 {
		ps = other
	}
	if len(ps) > 3 {
		ps = ps[:3]
	}
	return c.mkForall(append([]*Term{q.args[0], q.args[1]}, ps...))
}

// --- same ---

func (c *Ctx) Same(r, v *Term) *Term { return c.UF("same", SBool, r, v) }

// sameTyped: leaves rl (decoded) equal vl (encoded) at Go type t.
func (st *State) sameTyped(t types.Type, rl, vl []*Term) *Term {
	c := st.c
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return st.sameE(rl[0], vl[0])
	case *types.Slice:
		return c.And(c.Eq(rl[2], vl[2]), c.ForallRange(rl[2], func(j *Term) *Term {
			return st.sameTyped(u.Elem(), st.elemLeaves(u.Elem(), rl[0], c.Add(rl[1], j)), st.elemLeaves(u.Elem(), vl[0], c.Add(vl[1], j)))
		}))
	case *types.Map:
		return st.sameMap(rl[0], vl[0])
	case *types.Struct:
		r := c.True
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			k := nLeaves(u.Field(i).Type())
			r = c.And(r, st.sameTyped(u.Field(i).Type(), rl[off:off+k], vl[off:off+k]))
			off += k
		}
		return r
	}
	r := c.True
	for i := range rl {
		r = c.And(r, c.Eq(rl[i], vl[i]))
	}
	return r
}

func (st *State) sameMap(r, v *Term) *Term {
	c := st.c
	if r.bnd || v.bnd {
		return c.UF("samemap", SBool, r, v)
	}
	has, val, ln := st.mapHas(v), st.mapVal(v), st.mapLen(v)
	rhas, rval, rln := st.mapHas(r), st.mapVal(r), st.mapLen(r)
	return c.And(c.Eq(rln, ln), c.ForallRange(ln, func(j *Term) *Term {
		k := st.mapOrd(v, has, ln, j)
		return c.And(c.Select(rhas, k), c.Same(c.Select(rval, k), c.Select(val, k)))
	}))
}

// unfoldSame gives the definition of same(r,v) when v's constructor is known.
func (st *State) unfoldSame(r, v *Term) *Term {
	c := st.c
	n := st.ctorOf(v)
	switch {
	case n == "":
		if st.knownInt(v) {
			return c.Eq(r, c.Ctor("int64", c.IVal(v)))
		}
		return nil
	case n == "nil":
		return c.Is("nil", r)
	case n == "bool" || n == "string" || n == "float64":
		return c.Eq(r, c.Ctor(n, c.unpack(n, v)...))
	case isIntCtor(n):
		return c.Eq(r, c.Ctor("int64", c.unpack(n, v)[0]))
	case n == "float32":
		return c.Eq(r, c.Ctor("float64", c.UF("f32to64", SInt, c.unpack(n, v)[0])))
	case n == "list" || n == tSlice:
		l := st.asList(v)
		p := c.unpack(tSlice, r)
		elem := c.ctorType(tSlice).Underlying().(*types.Slice).Elem()
		return c.And(c.Is(tSlice, r), c.Eq(p[2], l.args[2]), c.ForallRange(l.args[2], func(j *Term) *Term {
			return st.sameE(st.elemLeaves(elem, p[0], c.Add(p[1], j))[0], c.Inst(l, j))
		}))
	case n == "other":
		if st.decide(c.UF("isStructure", SBool, v)) == -1 && st.decide(c.Eq(c.UF("rkind", SInt, v), c.Int(23))) == 1 {
			return st.unfoldSame(r, st.otherList(v))
		}
		return nil
	case n == tMap:
		return c.And(c.Is(tMap, r), st.sameMap(c.unpack(tMap, r)[0], c.unpack(tMap, v)[0]))
	}
	if _, ok := structSpecs[n]; ok {
		return c.And(c.Is(n, r), st.sameTyped(c.ctorType(n), c.unpack(n, r), c.unpack(n, v)))
	}
	return nil
}

func (st *State) sameE(r, v *Term) *Term {
	if v.op == OCtor && v.s != tMap && v.s != tSlice {
		if _, isStruct := structSpecs[v.s]; !isStruct || !r.bnd {
			if e := st.unfoldSame(r, v); e != nil {
				return e
			}
		}
	}
	return st.c.Same(r, v)
}

func (st *State) assumeSame(f *Term) {
	e := st.unfoldSame(f.args[0], f.args[1])
	if e == nil {
		st.sames = append(st.sames, f)
		return
	}
	if !st.pcset[f] {
		st.pcset[f] = true
		st.pc = append(st.pc, f)
	}
	st.Assume(e)
}

// --- innermost error ---

func (st *State) Inner(v *Term) *Term {
	c := st.c
	switch n := st.ctorOf(v); {
	case n == "":
	case n == tErr:
		ref := c.unpack(tErr, v)[0]
		if k, ok := ref.intVal(); ok && k < 0 {
			w := st.rd("F:errors.Error.wrapped", SAny, ref)
			if w.op == OCtor && w.s == "nil" {
				return v
			}
			switch st.decide(c.Is("nil", w)) {
			case 1:
				return v
			case -1:
				return st.Inner(w)
			}
			return c.Ite(c.Is("nil", w), v, st.Inner(w))
		}
	default:
		return v
	}
	t := c.UF("inn", SAny, v)
	c.addFact(t, c.Or(c.Is(tErr, v), c.Eq(t, v)))
	return t
}

func (c *Ctx) errBadConn() *Term { return c.Ctor("other", c.Int(1002)) }
func (c *Ctx) errEOF() *Term     { return c.Ctor("other", c.Int(1001)) }

var _ = fmt.Sprint
