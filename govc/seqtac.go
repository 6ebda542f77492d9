package main

import (
	"fmt"
	"os"
)

// Sequence reasoning under a path condition.

// seqRule rewrites an adjacent run of pieces.
type seqRule struct {
	lhs []*Term
	rhs []*Term
}

func (st *State) addSeqRule(a, b *Term) {
	pa, pb := Pieces(a), Pieces(b)
	na, nb := newestVar(a), newestVar(b)
	if a.bnd || b.bnd {
		return
	}
	atoms := func(ps []*Term) bool {
		for _, p := range ps {
			if p.op != OVar && p.op != OUF && p.op != OSelect && p.op != OSel {
				return false
			}
		}
		return len(ps) > 0
	}
	add := func(l, r []*Term) bool {
		if len(l) == 1 && st.ruleReaches(r, l[0]) {
			return false
		}
		if len(l) == 1 { // a second equation for the same term relates the right sides
			for _, o := range st.rules {
				if len(o.lhs) == 1 && o.lhs[0] == l[0] {
					x, y := st.c.Concat(o.rhs...), st.c.Concat(r...)
					if x != y {
						st.addSeqRule(y, x)
					}
					return true
				}
			}
		}
		st.rules = append(st.rules, seqRule{l, r})
		return true
	}
	switch {
	case len(pa) == 1 && pa[0].op == OVar && !occurs(pa[0], b) && (na >= nb || !(len(pb) == 1 && pb[0].op == OVar)):
		if !add(pa, pb) && atoms(pb) {
			add(pb, pa)
		}
	case len(pb) == 1 && pb[0].op == OVar && !occurs(pb[0], a):
		if !add(pb, pa) && atoms(pa) {
			add(pa, pb)
		}
	case atoms(pa) && atoms(pb) && len(pa) != len(pb):
		if len(pa) < len(pb) {
			if !add(pa, pb) && atoms(pb) {
				add(pb, pa)
			}
		} else {
			if !add(pb, pa) && atoms(pa) {
				add(pa, pb)
			}
		}
	case atoms(pa) && (na > nb || !atoms(pb)):
		if !add(pa, pb) && atoms(pb) {
			add(pb, pa)
		}
	case atoms(pb):
		if !add(pb, pa) && atoms(pa) {
			add(pa, pb)
		}
	}
}

// ruleReaches: rewriting with the rules could lead from the pieces to x.
func (st *State) ruleReaches(from []*Term, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for i, a := range t.args { // only what norm descends into
			if (t.op == OConcat || i == 0 && (t.op == OSub || t.op == OUF && t.s == "unframe")) && rec(a) {
				return true
			}
		}
		for _, r := range st.rules {
			if r.lhs[0] == t {
				for _, a := range r.rhs {
					if rec(a) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, t := range from {
		if rec(t) {
			return true
		}
	}
	return false
}

func occurs(v, t *Term) bool {
	found := false
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if t == v {
			found = true
		}
		if found || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

func newestVar(t *Term) int {
	m := -1
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && t.id > m {
			m = t.id
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return m
}

// norm normalises a sequence to pieces.
func (st *State) norm(t *Term) []*Term {
	c := st.c
	out := append([]*Term(nil), Pieces(t)...)
	for iter := 0; iter < 200; iter++ {
		changed := false
		// resolve structured pieces
		var n []*Term
		for _, p := range out {
			q := st.normPiece(p)
			if q != p {
				changed = true
			}
			n = append(n, Pieces(q)...)
		}
		out = Pieces(c.Concat(n...))
		if len(out) != len(n) {
			changed = true
		}
		for _, r := range st.rules {
			for i := 0; i+len(r.lhs) <= len(out); i++ {
				ok := true
				for k, l := range r.lhs {
					if out[i+k] != l && !st.sameUnframe(out[i+k], l) {
						ok = false
						break
					}
				}
				if ok {
					nn := append([]*Term(nil), out[:i]...)
					nn = append(nn, r.rhs...)
					nn = append(nn, out[i+len(r.lhs):]...)
					out = Pieces(c.Concat(nn...))
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	return out
}

// sameUnframe: unframe of two slices of one sequence with equal bounds.
func (st *State) sameUnframe(a, b *Term) bool {
	if a.op != OUF || b.op != OUF || a.s != "unframe" || b.s != "unframe" {
		return false
	}
	x, y := a.args[0], b.args[0]
	c := st.c
	return x.op == OSub && y.op == OSub && x.args[0] == y.args[0] && st.decide(c.Eq(x.args[1], y.args[1])) == 1 && st.decide(c.Eq(x.args[2], y.args[2])) == 1
}

func (st *State) normT(t *Term) *Term { return st.c.Concat(st.norm(t)...) }

func (st *State) normPiece(p *Term) *Term {
	c := st.c
	switch p.op {
	case OIte:
		switch st.decide(p.args[0]) {
		case 1:
			return p.args[1]
		case -1:
			return p.args[2]
		}
	case OSub:
		b := p.args[0]
		if st.hasRule(b) || b.op == OConcat || b.op == OUF {
			nb := c.Concat(st.norm(b)...)
			if nb != b {
				return c.SubS(nb, p.args[1], p.args[2])
			}
			if nb.op == OConcat {
				if r, ok := st.cut(nb, p.args[1], p.args[2]); ok {
					return r
				}
			}
		}
		if st.decide(c.Eq(p.args[1], p.args[2])) == 1 {
			return c.Empty
		}
	case OFold:
		if st.decide(c.Le(p.args[3], p.args[2])) == 1 {
			return c.Empty
		}
	case OUF:
		if p.s == "unframe" {
			if r := st.unframe(p.args[0]); r != nil {
				return r
			}
		}
		if p.s == "pack" {
			if r := st.packStep(p.args[0]); r != nil {
				return r
			}
		}
	case OUnit:
		// keep
	}
	return p
}

func (st *State) hasRule(b *Term) bool {
	for _, r := range st.rules {
		if len(r.lhs) == 1 && r.lhs[0] == b {
			return true
		}
	}
	return false
}

// cut tries to resolve base[lo:hi] for a concatenation without forking.
func (st *State) cut(b, lo, hi *Term) (*Term, bool) {
	c := st.c
	ps := Pieces(b)
	off := lo
	i := 0
	for i < len(ps) {
		if st.isZeroT(off) {
			off = c.Zero
			break
		}
		l := c.Len(ps[i])
		if d := st.decide(c.Le(l, off)); d == 1 {
			off = c.Sub(off, l)
			i++
			continue
		} else if d == -1 || st.decide(c.Le(off, l)) == 1 {
			break
		}
		return nil, false
	}
	need := c.Sub(hi, lo)
	var out []*Term
	for i < len(ps) {
		if st.decide(c.Le(need, c.Zero)) == 1 {
			break
		}
		l := c.Len(ps[i])
		avail := c.Sub(l, off)
		switch st.decide(c.Le(avail, need)) {
		case 1:
			out = append(out, c.SubS(ps[i], off, l))
			need = c.Sub(need, avail)
			off = c.Zero
			i++
			continue
		case -1:
			out = append(out, c.SubS(ps[i], off, c.Add(off, need)))
			need = c.Zero
		default:
			if st.decide(c.Le(need, avail)) != 1 {
				return nil, false
			}
			out = append(out, c.SubS(ps[i], off, c.Add(off, need)))
			need = c.Zero
		}
	}
	return c.Concat(out...), true
}

// take splits s after n bytes (0 <= n <= len(s) known), forking as needed.
func (st *State) take(s, n *Term) (*Term, *Term) {
	c := st.c
	ps := st.norm(s)
	var pre []*Term
	for steps := 0; ; steps++ {
		if steps > 200 {
			panic(toolErr{"take: too many steps"})
		}
		if st.isZeroT(n) {
			break
		}
		if len(ps) == 0 {
			break
		}
		p := ps[0]
		l := c.Len(p)
		if st.decide(c.Le(l, n)) == 1 {
			pre = append(pre, p)
			ps = ps[1:]
			n = c.Sub(n, l)
			continue
		}
		if e := st.expand(p, true); e != nil {
			ps = append(append([]*Term(nil), st.norm(c.Concat(e...))...), ps[1:]...)
			continue
		}
		if p.op == OUnit || (p.op == OLit && len(p.s) == 1) {
			if st.Branch(c.Le(n, c.Zero)) {
				break
			}
			continue
		}
		if st.Branch(c.Le(l, n)) {
			continue
		}
		// cut inside p
		if p.op == OLit {
			if k, ok := n.intVal(); ok {
				pre = append(pre, c.Lit(p.s[:k]))
				ps = append([]*Term{c.Lit(p.s[k:])}, ps[1:]...)
				n = c.Zero
				continue
			}
		}
		pre = append(pre, c.SubS(p, c.Zero, n))
		ps = append([]*Term{c.SubS(p, n, l)}, ps[1:]...)
		n = c.Zero
	}
	return c.Concat(pre...), c.Concat(ps...)
}

func (st *State) isZeroT(n *Term) bool {
	if v, ok := n.intVal(); ok {
		return v == 0
	}
	return st.decide(st.c.Eq(n, st.c.Zero)) == 1
}

// atByte reads byte i of s (index known in range).
func (st *State) atByte(s, i *Term) *Term {
	_, rest := st.take(s, i)
	h, _ := st.take(rest, st.c.Int(1))
	return st.c.At(h, st.c.Zero)
}

// expand unfolds a defined piece (fork allowed when force is set).
func (st *State) expand(p *Term, force bool) []*Term {
	c := st.c
	switch p.op {
	case OFold:
		lo, hi := p.args[2], p.args[3]
		d := st.decide(c.Lt(lo, hi))
		if d == 0 {
			if !force {
				return nil
			}
			if st.Branch(c.Lt(lo, hi)) {
				d = 1
			} else {
				d = -1
			}
		}
		if d == -1 {
			return []*Term{c.Empty}
		}
		return []*Term{c.Inst(p, lo), c.refold(p, c.AddI(lo, 1), hi)}
	case OUF:
		switch p.s {
		case "pack":
			if r := st.packForce(p.args[0], force); r != nil {
				return []*Term{r}
			}
		case "packint", "packhdr":
			if r := st.packDef(p, force); r != nil {
				return []*Term{r}
			}
		}
	case OIte:
		if force {
			if st.Branch(p.args[0]) {
				return []*Term{p.args[1]}
			}
			return []*Term{p.args[2]}
		}
	}
	return nil
}

// seqEq proves a == b on this path (may fork; call inside a proof exploration).
func (st *State) seqEq(a, b *Term, depth int) bool {
	c := st.c
	A, B := st.norm(a), st.norm(b)
	dbg := func(why string) bool {
		if os.Getenv("GOVC_SEQ") != "" {
			fmt.Fprintf(os.Stderr, "seqEq fails (%s):\n  A=%s\n  B=%s\n", why, c.Str(c.Concat(A...)), c.Str(c.Concat(B...)))
		}
		return false
	}
	for steps := 0; ; steps++ {
		if steps > 300 {
			return dbg("steps")
		}
		// common suffix / prefix, syntactic
		for len(A) > 0 && len(B) > 0 && A[0] == B[0] {
			A, B = A[1:], B[1:]
		}
		for len(A) > 0 && len(B) > 0 && A[len(A)-1] == B[len(B)-1] {
			A, B = A[:len(A)-1], B[:len(B)-1]
		}
		if len(A) == 0 && len(B) == 0 {
			return true
		}
		if len(A) == 0 || len(B) == 0 {
			r := append(append([]*Term(nil), A...), B...)
			if st.valid(c.Eq(c.Len(c.Concat(r...)), c.Zero)) {
				return true
			}
			// something may still be expandable to empty
			if e := st.expand(r[0], true); e != nil {
				nr := append(st.norm(c.Concat(e...)), r[1:]...)
				A, B = nr, nil
				continue
			}
			return dbg("length")
		}
		x, y := A[0], B[0]
		if st.isZeroT(c.Len(x)) {
			A = A[1:]
			continue
		}
		if st.isZeroT(c.Len(y)) {
			B = B[1:]
			continue
		}
		// literals and units
		if x.op == OLit && y.op == OLit {
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[:n] != y.s[:n] {
				return dbg("literal")
			}
			A = consume(c, A, n)
			B = consume(c, B, n)
			continue
		}
		if bx, ok := headByte(c, x); ok {
			if by, ok2 := headByte(c, y); ok2 {
				if !st.proveLeaf(c.Eq(bx, by)) {
					return dbg("byte " + c.Str(bx) + " vs " + c.Str(by))
				}
				A = consume(c, A, 1)
				B = consume(c, B, 1)
				continue
			}
		}
		// same-base subsequences
		bx, lx, hx, okx := st.view(x)
		by, ly, hy, oky := st.view(y)
		if okx && oky && bx == by && st.decide(c.Eq(lx, ly)) == 1 {
			switch st.decide(c.Le(hx, hy)) {
			case 0:
				if !st.Branch(c.Le(hx, hy)) {
					B = B[1:]
					A = append([]*Term{c.SubS(bx, hy, hx)}, A[1:]...)
					continue
				}
				fallthrough
			case 1:
				A = A[1:]
				B = append(Pieces(c.SubS(bx, hx, hy)), B[1:]...)
			case -1:
				B = B[1:]
				A = append(Pieces(c.SubS(bx, hy, hx)), A[1:]...)
			}
			continue
		}
		if x.op == OFold && y.op == OFold {
			if x.args[1] == y.args[1] && x.args[0] == y.args[0] && st.decide(c.Eq(x.args[2], y.args[2])) == 1 {
				if st.Branch(c.Le(x.args[3], y.args[3])) {
					A = A[1:]
					B = append(Pieces(c.refold(y, x.args[3], y.args[3])), B[1:]...)
				} else {
					B = B[1:]
					A = append(Pieces(c.refold(x, y.args[3], x.args[3])), A[1:]...)
				}
				continue
			}
			nx, ny := c.Sub(x.args[3], x.args[2]), c.Sub(y.args[3], y.args[2])
			if depth < 4 && st.decide(c.Eq(nx, ny)) == 1 {
				j := c.Fresh("j", SInt)
				ok := st.tryProve(func(s2 *State) bool {
					s2.Assume(c.Le(c.Zero, j))
					s2.Assume(c.Lt(j, nx))
					return s2.seqEq(c.Inst(x, c.Add(x.args[2], j)), c.Inst(y, c.Add(y.args[2], j)), depth+1)
				})
				if ok {
					A, B = A[1:], B[1:]
					continue
				}
				return dbg("fold bodies")
			}
		}
		if x.op == OUF && y.op == OUF && x.s == y.s && (x.s == "pack" || x.s == "packint") {
			if st.valid(c.Eq(x.args[0], y.args[0])) {
				A, B = A[1:], B[1:]
				continue
			}
		}
		if x.op == OUF && y.op == OUF && x.s == y.s && x.s == "packhdr" {
			if x.args[0] == y.args[0] && st.valid(c.Eq(x.args[1], y.args[1])) {
				A, B = A[1:], B[1:]
				continue
			}
		}
		if x.sort == SStr && x.op != OFold && y.op != OFold && !isDefined(x) && !isDefined(y) {
			if st.decide(c.Eq(x, y)) == 1 {
				A, B = A[1:], B[1:]
				continue
			}
		}
		// unfold
		if y.op == OUF && y.s == "pack" && (x.op != OFold) {
			if e := st.expand(y, true); e != nil {
				B = append(st.norm(c.Concat(e...)), B[1:]...)
				continue
			}
		}
		if x.op == OUF && x.s == "pack" && (y.op != OFold) {
			if e := st.expand(x, true); e != nil {
				A = append(st.norm(c.Concat(e...)), A[1:]...)
				continue
			}
		}
		if e := st.expand(x, true); e != nil {
			A = append(st.norm(c.Concat(e...)), A[1:]...)
			continue
		}
		if e := st.expand(y, true); e != nil {
			B = append(st.norm(c.Concat(e...)), B[1:]...)
			continue
		}
		// byte against the head of a longer piece
		if _, ok := headByte(c, x); ok && okOpaque(y) {
			h, r := st.take(c.Concat(B...), c.Int(1))
			B = append(Pieces(h), Pieces(r)...)
			if len(B) > 0 && B[0] != y {
				continue
			}
		}
		if _, ok := headByte(c, y); ok && okOpaque(x) {
			h, r := st.take(c.Concat(A...), c.Int(1))
			A = append(Pieces(h), Pieces(r)...)
			if len(A) > 0 && A[0] != x {
				continue
			}
		}
		return dbg("stuck")
	}
}

func okOpaque(t *Term) bool { return t.op == OVar || t.op == OSub || t.op == OSelect || t.op == OSel }

func isDefined(t *Term) bool {
	return t.op == OUF && (t.s == "pack" || t.s == "packint" || t.s == "packhdr")
}

// view sees any atom as base[lo:hi].
func (st *State) view(t *Term) (b, lo, hi *Term, ok bool) {
	if b, lo, hi, ok = st.c.subView(t); ok {
		return
	}
	switch t.op {
	case OVar, OSelect, OSel, OUF:
		if !isDefined(t) {
			return t, st.c.Zero, st.c.Len(t), true
		}
	}
	return nil, nil, nil, false
}

func headByte(c *Ctx, t *Term) (*Term, bool) {
	switch t.op {
	case OLit:
		return c.Int(int64(t.s[0])), true
	case OUnit:
		return t.args[0], true
	}
	return nil, false
}

func consume(c *Ctx, A []*Term, n int) []*Term {
	x := A[0]
	if x.op == OLit && len(x.s) > n {
		return append([]*Term{c.Lit(x.s[n:])}, A[1:]...)
	}
	return A[1:]
}

// --- chunk framing:  wf(s) and unframe(s) ---

// parseFrames walks s as  known-well-framed prefix, then chunks.
// It returns the payload, or nil if s is not seen to be well framed.
func (st *State) parseFrames(s *Term) (res *Term, okk bool) {
	c := st.c
	why := ""
	if os.Getenv("GOVC_SEQ") != "" {
		defer func() {
			if !okk {
				fmt.Fprintf(os.Stderr, "parseFrames fails (%s) on %s\n", why, c.Str(s))
				for _, w := range st.wfs {
					fmt.Fprintf(os.Stderr, "   wf %s\n", c.Str(w))
				}
			}
		}()
	}
	ps := st.norm(s)
	s = c.Concat(ps...)
	if len(ps) == 0 {
		return c.Empty, true
	}
	var out []*Term
	// longest known prefix
	rest := s
	matched := false
	for i := len(st.wfs) - 1; i >= 0 && !matched; i-- {
		for _, w := range []*Term{st.wfs[i], st.normT(st.wfs[i])} {
			if r, ok := st.stripPrefix(s, w); ok {
				out = append(out, c.UF("unframe", SStr, st.wfs[i]))
				rest = r
				matched = true
				break
			}
		}
	}
	for steps := 0; steps < 40; steps++ {
		l := c.Len(rest)
		if st.isZeroT(l) {
			return c.Concat(out...), true
		}
		if st.decide(c.Le(c.Int(3), l)) != 1 {
			why = "len " + c.Str(l)
			return nil, false
		}
		h0, ok0 := st.peek(rest, 0)
		h1, ok1 := st.peek(rest, 1)
		if !ok0 || !ok1 {
			why = "peek"
			return nil, false
		}
		n := st.unmod(c.FromBE([]*Term{h0, h1}))
		if st.decide(c.Lt(c.Zero, n)) != 1 || st.decide(c.Le(c.AddI(n, 2), l)) != 1 {
			why = "header " + c.Str(n)
			return nil, false
		}
		d, ok := st.cutAny(rest, c.Int(2), c.AddI(n, 2))
		if !ok {
			why = "cut " + c.Str(n)
			return nil, false
		}
		r, ok := st.cutAny(rest, c.AddI(n, 2), l)
		if !ok {
			why = "cut " + c.Str(n)
			return nil, false
		}
		out = append(out, d)
		rest = r
	}
	return nil, false
}

func (st *State) cutAny(s, lo, hi *Term) (*Term, bool) {
	if s.op == OConcat {
		return st.cut(s, lo, hi)
	}
	return st.c.SubS(s, lo, hi), true
}

func (st *State) peek(s *Term, i int64) (*Term, bool) {
	r, ok := st.cutAny(s, st.c.Int(i), st.c.Int(i+1))
	if !ok {
		return nil, false
	}
	return st.c.At(r, st.c.Zero), true
}

// stripPrefix removes w from the front of s if it is one.
func (st *State) stripPrefix(s, w *Term) (*Term, bool) {
	c := st.c
	S, W := Pieces(s), Pieces(w)
	for len(W) > 0 && len(S) > 0 {
		if S[0] == W[0] {
			S, W = S[1:], W[1:]
			continue
		}
		bs, ls, hs, ok1 := st.view(S[0])
		bw, lw, hw, ok2 := st.view(W[0])
		if ok1 && ok2 && bs == bw && st.decide(c.Eq(ls, lw)) == 1 && st.decide(c.Le(hw, hs)) == 1 {
			r := Pieces(c.SubS(bs, hw, hs))
			S = append(append([]*Term(nil), r...), S[1:]...)
			W = W[1:]
			continue
		}
		return nil, false
	}
	if len(W) > 0 {
		if st.isZeroT(c.Len(c.Concat(W...))) {
			return c.Concat(S...), true
		}
		return nil, false
	}
	return c.Concat(S...), true
}

func (st *State) unframe(s *Term) *Term {
	n := st.normT(s)
	p, ok := st.parseFrames(n)
	if ok {
		if p.op == OUF && p.s == "unframe" && (p.args[0] == s || p.args[0] == n) {
			if p.args[0] == s {
				return nil
			}
			return p
		}
		return p
	}
	if n != s {
		return st.c.UF("unframe", SStr, n)
	}
	return nil
}

// unmod drops a modulus the path makes redundant.
func (st *State) unmod(t *Term) *Term {
	c := st.c
	if t.op == OMod && st.valid(c.And(c.Le(c.Zero, t.args[0]), c.Lt(t.args[0], c.BigInt(t.n)))) {
		return t.args[0]
	}
	return t
}

// framing: if the first L bytes of s are one complete message (chunks, then an
// empty chunk) and the first q bytes are whole chunks, then at q there is
// either the final empty chunk or another whole chunk before it.
// Instantiated at the known prefixes.
func (st *State) framing(s, L *Term) *Term {
	c := st.c
	end := c.AddI(L, -2)
	complete := c.And(c.Le(c.Int(2), L), c.Le(L, c.Len(s)), c.UF("wf", SBool, st.normT(c.SubS(s, c.Zero, end))), c.Eq(st.normT(c.SubS(s, end, L)), c.Lit("\x00\x00")))
	out := c.True
	for _, w := range append([]*Term{c.Empty}, st.wfs...) {
		rest, ok := st.stripPrefix(s, w)
		if !ok {
			continue
		}
		q := c.Len(w)
		h := c.Add(c.ScaleI(c.At(rest, c.Zero), 256), c.At(rest, c.Int(1)))
		step := c.And(c.Le(q, end), c.Or(c.And(c.Eq(q, end), c.Eq(h, c.Zero)), c.And(c.Le(c.Int(1), h), c.Le(c.Add(q, c.AddI(h, 2)), end))))
		out = c.And(out, c.Implies(complete, step))
	}
	return out
}
