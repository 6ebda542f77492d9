package main

// Byte sequences: context-free constructors.  Everything that needs the path
// condition (splitting, equality) is in seqtac.go.

import "math/big"

func (t *Term) litVal() (string, bool) {
	if t.op == OLit {
		return t.s, true
	}
	if t.op == OConcat && len(t.args) == 0 {
		return "", true
	}
	return "", false
}

func (c *Ctx) Lit(s string) *Term {
	if s == "" {
		return c.Empty
	}
	return c.mk(&Term{op: OLit, sort: SStr, s: s})
}

func (c *Ctx) Unit(b *Term) *Term {
	if n, ok := b.intVal(); ok {
		return c.Lit(string([]byte{byte(n)}))
	}
	return c.mk(&Term{op: OUnit, sort: SStr, args: []*Term{b}})
}

// Pieces flattens a sequence.
func Pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Concat(xs ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OConcat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.op == OLit && t.op == OLit {
				out[len(out)-1] = c.Lit(l.s + t.s)
				return
			}
			if m := c.joinSub(l, t); m != nil {
				out[len(out)-1] = m
				return
			}
		}
		out = append(out, t)
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OConcat, sort: SStr, args: out})
}

// subView sees a piece as base[lo:hi].
func (c *Ctx) subView(t *Term) (b, lo, hi *Term, ok bool) {
	switch t.op {
	case OSub:
		return t.args[0], t.args[1], t.args[2], true
	case OUnit:
		if t.args[0].op == OUF && t.args[0].s == "sat" {
			b := t.args[0].args[0]
			i := t.args[0].args[1]
			return b, i, c.AddI(i, 1), true
		}
	}
	return nil, nil, nil, false
}

func (c *Ctx) joinSub(l, r *Term) *Term {
	b1, lo1, hi1, ok1 := c.subView(l)
	b2, lo2, hi2, ok2 := c.subView(r)
	if ok1 && ok2 && b1 == b2 && hi1 == lo2 && lo1 != hi1 && lo2 != hi2 {
		return c.SubS(b1, lo1, hi2)
	}
	return nil
}

func (c *Ctx) Len(t *Term) *Term {
	switch t.op {
	case OConcat:
		r := c.Zero
		for _, a := range t.args {
			r = c.Add(r, c.Len(a))
		}
		return r
	case OUnit:
		return c.Int(1)
	case OLit:
		return c.Int(int64(len(t.s)))
	case OSub:
		return c.Sub(t.args[2], t.args[1])
	case OIte:
		return c.Ite(t.args[0], c.Len(t.args[1]), c.Len(t.args[2]))
	}
	return c.UF("slen", SInt, t)
}

func (c *Ctx) At(t, i *Term) *Term {
	switch t.op {
	case OUnit:
		return t.args[0]
	case OLit:
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(t.s)) {
			return c.Int(int64(t.s[n]))
		}
	case OSub:
		return c.At(t.args[0], c.Add(t.args[1], i))
	case OIte:
		return c.Ite(t.args[0], c.At(t.args[1], i), c.At(t.args[2], i))
	case OConcat:
		off := i
		for _, a := range t.args {
			l := c.Len(a)
			if c.Lt(off, l).isTrue() && !c.Lt(off, c.Zero).isTrue() {
				return c.At(a, off)
			}
			if c.Le(l, off).isTrue() {
				off = c.Sub(off, l)
				continue
			}
			break
		}
	}
	return c.UF("sat", SInt, t, i)
}

func (c *Ctx) SubS(t, lo, hi *Term) *Term {
	if lo == hi {
		return c.Empty
	}
	if c.isZero(lo) && c.Len(t) == hi {
		return t
	}
	switch t.op {
	case OSub:
		return c.SubS(t.args[0], c.Add(t.args[1], lo), c.Add(t.args[1], hi))
	case OLit:
		a, ok1 := lo.intVal()
		b, ok2 := hi.intVal()
		if ok1 && ok2 && a >= 0 && b <= int64(len(t.s)) && a <= b {
			return c.Lit(t.s[a:b])
		}
	case OConcat:
		// drop whole leading pieces / cut inside when syntactically decided
		ps := t.args
		l, h := lo, hi
		for len(ps) > 0 {
			pl := c.Len(ps[0])
			if c.Le(pl, l).isTrue() {
				l, h = c.Sub(l, pl), c.Sub(h, pl)
				ps = ps[1:]
				continue
			}
			break
		}
		if len(ps) < len(t.args) {
			return c.SubS(c.Concat(ps...), l, h)
		}
		// trailing
		var pre []*Term
		h = hi
		for i, p := range ps {
			pl := c.Len(p)
			if c.Le(h, pl).isTrue() {
				if i == 0 {
					return c.SubS(p, lo, h)
				}
				if c.isZero(lo) {
					pre = append(pre, c.SubS(p, c.Zero, h))
					return c.Concat(pre...)
				}
				break
			}
			if !c.Le(pl, h).isTrue() {
				break
			}
			pre = append(pre, p)
			h = c.Sub(h, pl)
			if c.isZero(h) && c.isZero(lo) {
				return c.Concat(pre...)
			}
		}
		// cut first piece when lo is inside it and hi is at the end
		if hi == c.Len(t) && len(t.args) > 0 {
			p := t.args[0]
			pl := c.Len(p)
			if c.Le(lo, pl).isTrue() {
				return c.Concat(append([]*Term{c.SubS(p, lo, pl)}, t.args[1:]...)...)
			}
		}
	}
	if d, ok := c.Sub(hi, lo).intVal(); ok && d == 1 {
		return c.Unit(c.At(t, lo))
	}
	return c.mk(&Term{op: OSub, sort: SStr, args: []*Term{t, lo, hi}})
}

func (c *Ctx) isZero(t *Term) bool { n, ok := t.intVal(); return ok && n == 0 }

// Fold is the concatenation of f(j) for lo <= j < hi.
func (c *Ctx) Fold(lo, hi *Term, f func(j *Term) *Term) *Term {
	bv, body := c.bind(SInt, f)
	return c.fold(bv, body, lo, hi)
}
func (c *Ctx) fold(bv, body, lo, hi *Term) *Term {
	if d, ok := c.Sub(hi, lo).intVal(); ok && d <= 8 {
		var ps []*Term
		for i := int64(0); i < d; i++ {
			ps = append(ps, c.Subst(body, map[*Term]*Term{bv: c.AddI(lo, i)}))
		}
		return c.Concat(ps...)
	}
	t := c.mk(&Term{op: OFold, sort: SStr, args: []*Term{bv, body, lo, hi}})
	if m := minLen(body); m > 0 && !t.bnd {
		c.addFact(t, c.Le(c.ScaleI(c.Sub(hi, lo), m), c.Len(t)))
	}
	return t
}

// minLen is a length every instance of the string term has at least.
func minLen(t *Term) int64 {
	switch t.op {
	case OConcat:
		var n int64
		for _, a := range t.args {
			n += minLen(a)
		}
		return n
	case OUnit:
		return 1
	case OLit:
		return int64(len(t.s))
	case OUF:
		if t.s == "pack" || t.s == "packint" || t.s == "packhdr" {
			return 1
		}
	}
	return 0
}
func (c *Ctx) refold(f, lo, hi *Term) *Term { return c.fold(f.args[0], f.args[1], lo, hi) }

// List is the spec-level list value of n elements f(j).
func (c *Ctx) List(n *Term, f func(j *Term) *Term) *Term {
	bv, body := c.bind(SInt, f)
	return c.mk(&Term{op: OList, sort: SAny, args: []*Term{bv, body, n}})
}

var big256 = big.NewInt(256)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// ByteOf is byte i (0 = least significant) of the two's complement of x.
func (c *Ctx) ByteOf(x *Term, i int) *Term {
	// byte of wrapped value
	if b := c.unwrapFor(x, i); b != nil {
		x = b
	}
	if i == 0 {
		return c.Mod(x, big256)
	}
	return c.Mod(c.Div(x, pow2(8*i)), big256)
}

// unwrapFor strips wrap-arounds that do not affect byte i.
func (c *Ctx) unwrapFor(x *Term, i int) *Term {
	if x.op == OMod && x.n.Cmp(pow2(8*(i+1))) >= 0 && isPow2(x.n) {
		return x.args[0]
	}
	// signed wrap is encoded as mod(x+2^(n-1), 2^n) - 2^(n-1)
	if x.op == OLin && len(x.args) == 1 && x.args[0].op == OMod && x.coef[0].Cmp(big.NewInt(1)) == 0 {
		m := x.args[0]
		if isPow2(m.n) && m.n.Cmp(pow2(8*(i+1))) >= 0 {
			return c.Add(m.args[0], c.BigInt(x.n))
		}
	}
	return nil
}
func isPow2(n *big.Int) bool {
	return n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0
}

// BytesBE is the big-endian n-byte representation.
func (c *Ctx) BytesBE(x *Term, n int) *Term {
	var ps []*Term
	for i := n - 1; i >= 0; i-- {
		ps = append(ps, c.Unit(c.ByteOf(x, i)))
	}
	return c.Concat(ps...)
}

// FromBE recombines bytes b[0] (most significant) .. into the unsigned value.
func (c *Ctx) FromBE(b []*Term) *Term {
	n := len(b)
	// recognise byteof pattern
	src := func(t *Term, i int) *Term {
		if t.op != OMod || t.n.Cmp(big256) != 0 {
			return nil
		}
		a := t.args[0]
		if i == 0 {
			return a
		}
		if a.op == ODiv && a.n.Cmp(pow2(8*i)) == 0 {
			return a.args[0]
		}
		return nil
	}
	if n > 1 {
		x := src(b[0], n-1)
		ok := x != nil
		for i := 1; ok && i < n; i++ {
			y := src(b[i], n-1-i)
			if y == nil {
				ok = false
				break
			}
			if i == n-1 {
				// low byte may have been simplified modulo 256
				ok = c.Mod(x, big256) == c.Mod(y, big256)
			} else {
				ok = y == x
			}
		}
		if ok {
			return c.Mod(x, pow2(8*n))
		}
	} else if n == 1 {
		return b[0]
	}
	// constants for the top bytes, zero: fall through to the sum
	r := c.Zero
	for i := 0; i < n; i++ {
		r = c.Add(r, c.Scale(b[i], pow2(8*(n-1-i))))
	}
	return r
}

// wrapInt is the value of x converted to an integer type.
func (c *Ctx) wrapInt(x *Term, bits int, signed bool) *Term {
	if !signed {
		return c.Mod(x, pow2(bits))
	}
	h := pow2(bits - 1)
	if lo, hi := c.staticRange(x); lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
		return x
	}
	m := c.Mod(c.Add(x, c.BigInt(h)), pow2(bits))
	return c.Sub(m, c.BigInt(h))
}
