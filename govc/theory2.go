package main

// dec(v): v is encodable and made only of things a decoder can produce.

import "math/big"

func (c *Ctx) Dec(v *Term) *Term { return c.UF("dec", SBool, v) }

// IsInt / ival: v holds a Go integer of any type, with that value.
func (c *Ctx) IsInt(v *Term) *Term {
	if v.op == OCtor || v.op == OList {
		return c.Bool(v.op == OCtor && isIntCtor(v.s))
	}
	t := c.UF("isint", SBool, v)
	if !v.bnd {
		r := c.False
		for _, k := range intCtors {
			r = c.Or(r, c.Is(k, v))
		}
		c.addFact(t, c.Iff(t, r))
	}
	return t
}

func (c *Ctx) IVal(v *Term) *Term {
	if v.op == OCtor && isIntCtor(v.s) {
		return v.args[0]
	}
	t := c.UF("ival", SInt, v)
	if !v.bnd {
		var fs []*Term
		for _, k := range intCtors {
			fs = append(fs, c.Implies(c.Is(k, v), c.Eq(t, c.SelC(k, 0, v))))
		}
		c.addFact(t, fs...)
	}
	return t
}

// knownInt: the path knows v is an integer (of unknown integer type).
func (st *State) knownInt(v *Term) bool {
	if v.op == OCtor || v.op == OList {
		return v.op == OCtor && isIntCtor(v.s)
	}
	if isIntCtor(st.ctor[v]) {
		return true
	}
	return st.pcset[st.c.IsInt(v)]
}

func (st *State) unfoldDec(v *Term) *Term {
	c := st.c
	max32 := c.BigInt(new(big.Int).Sub(pow2(32), big.NewInt(1)))
	lo, hi := intRange(64, true)
	if st.knownInt(v) {
		x := c.IVal(v)
		return c.And(c.Le(c.BigInt(lo), x), c.Le(x, c.BigInt(hi)))
	}
	list := func(l *Term) *Term {
		ln := l.args[2]
		return c.And(c.Le(ln, max32), c.ForallRange(ln, func(j *Term) *Term { return st.decE(c.Inst(l, j)) }))
	}
	n := st.ctorOf(v)
	switch {
	case n == "":
		if v.bnd {
			return nil
		}
		r := c.IsInt(v)
		for _, k := range decCases() {
			r = c.Or(r, c.Is(k, v))
		}
		return r
	case n == "nil", n == "bool", n == "float32", n == "float64":
		return c.True
	case n == "string":
		return c.Le(c.Len(c.unpack(n, v)[0]), max32)
	case n == "list" || n == tSlice:
		return list(st.asList(v))
	case n == tMap:
		ref := c.unpack(n, v)[0]
		has, val, ln := st.mapHas(ref), st.mapVal(ref), st.mapLen(ref)
		return c.And(c.Le(ln, max32), c.ForallRange(ln, func(j *Term) *Term {
			k := st.mapOrd(ref, has, ln, j)
			return c.And(st.decE(c.Ctor("string", k)), c.Dec(c.Select(val, k)))
		}))
	case n == "other":
		return c.And(c.Not(c.UF("isStructure", SBool, v)), c.Eq(c.UF("rkind", SInt, v), c.Int(23)), list(st.otherList(v)))
	}
	for _, k := range decodable {
		if k == n {
			r := c.True
			for _, f := range st.structFields(n, c.unpack(n, v)) {
				r = c.And(r, st.decE(f))
			}
			return r
		}
	}
	return c.False
}

func (st *State) decE(v *Term) *Term {
	if v.op == OCtor && v.s != "other" && v.s != tMap && v.s != tSlice || v.op == OList {
		if _, isStruct := structSpecs[v.s]; isStruct && v.bnd {
			return st.c.Dec(v)
		}
		if e := st.unfoldDec(v); e != nil {
			return e
		}
	}
	return st.c.Dec(v)
}

// decCases: constructors a dec value may have besides the integers.
func decCases() []string {
	u := []string{"nil", "bool", "float32", "float64", "string", tSlice, tMap}
	u = append(u, decodable...)
	return append(u, "other")
}

// learned is called when v's constructor (or integer-ness) becomes known.
func (st *State) learned(v *Term) {
	c := st.c
	if st.pcset[c.Dec(v)] {
		if e := st.unfoldDec(v); e != nil {
			st.Assume(e)
		}
	}
	if st.pcset[c.Enc(v)] {
		if e := st.unfoldEnc(v); e != nil {
			st.Assume(e)
		}
	}
	if st.pcset[c.Not(c.Enc(v))] {
		if e := st.unfoldEnc(v); e != nil {
			st.Assume(c.Not(e))
		}
	}
}
