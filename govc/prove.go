package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Oblig is one proof obligation.
type Oblig struct {
	Label string   `json:"label"`
	Tags  []string `json:"tags"`
	Path  string   `json:"path"`
	OK    bool     `json:"ok"`
	Goal  string   `json:"goal,omitempty"`
	Facts []string `json:"facts,omitempty"`
	Pos   string   `json:"pos,omitempty"`
	Stack string   `json:"stack,omitempty"`
	Note  string   `json:"note,omitempty"`
}

// Unit is the verification of one function against one contract.
type Unit struct {
	Name             string
	C                *Ctx
	Con              *Contract
	Obl              map[string]*Oblig
	OblOrder         []string
	Paths            int
	Reached          int
	Errors           []string
	Assumed          map[string]bool
	Inlined          map[string]bool
	Used             map[string]bool // contracts used at call sites
	Lib              map[string]bool
	loopc            map[string]*loopInv
	PanicTag         []string
	Specs            *Specs
	SolverS          float64
	Queries, Unknown int
	Exits            int
	Secs             float64
	Fam              string
	entryVars        map[string]EV
	keep             []string
}

// Prove records an obligation and assumes it afterwards.
func (st *State) Prove(goal *Term, label string, tags []string, pos string) {
	if st.quiet > 0 {
		st.Assume(goal)
		return
	}
	u := st.c.U
	g := st.simp(goal)
	key := label + "@" + pos + "@" + strings.Join(st.stack, ">") + "@" + st.ex.path()
	if o, ok := u.Obl[key]; ok {
		_ = o
		st.Assume(goal)
		return
	}
	ok := g.isTrue() || st.pcset[g]
	if !ok {
		ok = st.tryProve(func(s2 *State) bool { return s2.proveGoal(g, 0) })
	}
	o := &Oblig{Label: label, Tags: tags, Path: st.ex.path(), OK: ok, Pos: pos, Stack: strings.Join(st.stack, ">")}
	if !ok {
		o.Goal = st.c.Str(g)
		for _, f := range st.pc {
			o.Facts = append(o.Facts, st.c.Str(f))
		}
		if os.Getenv("GOVC_FAIL") != "" {
			fmt.Fprintf(os.Stderr, "FAILED %s %s at %s [%s]\n  goal: %s\n", u.Name, label, pos, o.Stack, o.Goal)
			if os.Getenv("GOVC_FAIL") == "2" {
				for _, f := range o.Facts {
					fmt.Fprintf(os.Stderr, "    fact: %s\n", f)
				}
				for _, r := range st.rules {
					fmt.Fprintf(os.Stderr, "    rule: %s -> %s\n", st.c.Str(st.c.mk(&Term{op: OConcat, sort: SStr, args: r.lhs})), st.c.Str(st.c.Concat(r.rhs...)))
				}
				for _, n := range st.notes {
					fmt.Fprintf(os.Stderr, "    note: %s\n", n)
				}
			}
		}
	}
	u.Obl[key] = o
	u.OblOrder = append(u.OblOrder, key)
	if !ok && goal.isFalse() {
		st.end("failed obligation " + label)
	}
	st.Assume(goal)
}

// tryProve explores f from the current state; every path must succeed.
func (st *State) tryProve(f func(s2 *State) bool) bool {
	ok := true
	saved := map[string]int{}
	for k, v := range st.c.fresh {
		saved[k] = v
	}
	st.c.explore(st, "prove", func(s2 *State) {
		if !ok {
			s2.end("already failed")
		}
		s2.quiet++
		if !f(s2) {
			ok = false
		}
	})
	return ok
}

func (st *State) proveLeaf(g *Term) bool {
	g = st.simp(g)
	if g.isTrue() || st.pcset[g] {
		return true
	}
	if g.isFalse() {
		return st.c.smt.Check(st.pc, st.c.True, 2000, true) == rUnsat
	}
	return st.c.smt.Check(st.pc, st.c.Not(g), 3000, true) == rUnsat
}

func (c *Ctx) special(t *Term) bool {
	return c.Contains(t, func(x *Term) bool {
		return x.op == OEq && x.args[0].sort == SStr && !(x.args[0].op == OVar && x.args[1].op == OLit) || x.op == OUF && (x.s == "same" || x.s == "enc" || x.s == "wf" || x.s == "dec" || x.s == "samemap")
	})
}

func (st *State) proveGoal(g *Term, d int) bool {
	c := st.c
	g = st.simp(g)
	if g.isTrue() || st.pcset[g] {
		return true
	}
	fail := func(why string) bool {
		if os.Getenv("GOVC_SEQ") != "" {
			fmt.Fprintf(os.Stderr, "proveGoal fails (%s): %s\n", why, c.Str(g))
		}
		return false
	}
	if !c.special(g) {
		if st.proveLeaf(g) {
			return true
		}
	}
	if d > 12 {
		return fail("depth")
	}
	switch g.op {
	case OAnd:
		as := append([]*Term(nil), g.args...)
		sort.SliceStable(as, func(i, j int) bool { return !c.special(as[i]) && c.special(as[j]) })
		for _, a := range as {
			a := a
			if !st.tryProve(func(s2 *State) bool { return s2.proveGoal(a, d+1) }) {
				return false
			}
			st.Assume(a)
		}
		return true
	case OOr:
		var sp []*Term
		for _, a := range g.args {
			if a.op == ONot && c.special(a) && st.logic(a.args[0]) {
				st.Assume(a.args[0])
			} else if c.special(a) {
				sp = append(sp, a)
			} else {
				st.Assume(c.Not(a))
			}
		}
		st.instMaps()
		if len(sp) == 0 {
			return st.proveGoal(c.False, d+1)
		}
		if len(sp) == 1 {
			return st.proveGoal(sp[0], d+1)
		}
		for i, a := range sp {
			i, a := i, a
			if st.tryProve(func(s2 *State) bool {
				for j, b := range sp {
					if j != i {
						s2.assumeNot(b)
					}
				}
				return s2.proveGoal(a, d+1)
			}) {
				return true
			}
		}
		return fail("or")
	case OForall:
		j := c.Fresh("sk", g.args[0].sort)
		g2 := c.Inst(g, j)
		if g2.op == OOr {
			r := c.False
			for _, a := range g2.args {
				if a.op == ONot && !c.special(a) {
					st.Assume(a.args[0])
				} else {
					r = c.Or(r, a)
				}
			}
			g2 = r
		}
		if g2.op == ONot && !c.special(g2) {
			st.Assume(g2.args[0])
			g2 = c.False
		}
		st.instAll(j)
		return st.proveGoal(g2, d+1)
	case OEq:
		if g.args[0].sort == SStr {
			return st.seqEq(g.args[0], g.args[1], 0) || st.proveLeaf(g)
		}
		if g.args[0].sort == SAny {
			a, b := g.args[0], g.args[1]
			ka, kb := st.ctorOf(a), st.ctorOf(b)
			if ka != "" && ka == kb && ka != "list" {
				pa, pb := c.unpack(ka, a), c.unpack(ka, b)
				r := c.True
				for i := range pa {
					r = c.And(r, c.Eq(pa[i], pb[i]))
				}
				return st.proveGoal(r, d+1)
			}
		}
	case OUF:
		switch g.s {
		case "same":
			if st.ctorOf(g.args[1]) != "" || st.knownInt(g.args[1]) {
				if e := st.unfoldSame(g.args[0], g.args[1]); e != nil {
					return st.proveGoal(e, d+1)
				}
			}
		case "samemap":
			return st.proveGoal(st.sameMap(g.args[0], g.args[1]), d+1)
		case "enc":
			if st.proveLeaf(g) {
				return true
			}
			if e := st.unfoldEnc(g.args[0]); e != nil {
				return st.proveGoal(e, d+1)
			}
		case "dec":
			if st.ctorOf(g.args[0]) != "" || st.knownInt(g.args[0]) {
				if e := st.unfoldDec(g.args[0]); e != nil {
					return st.proveGoal(e, d+1)
				}
			}
		case "wf":
			_, ok := st.parseFrames(g.args[0])
			if !ok && !st.proveLeaf(g) {
				return fail("wf")
			}
			return true
		}
	case ONot:
		st.Assume(g.args[0])
		if st.proveLeaf(c.False) {
			return true
		}
		if st.refuteEnc() {
			return true
		}
		if st.splitNeg() {
			return true
		}
		return fail("not")
	}
	if st.proveLeaf(g) {
		return true
	}
	if os.Getenv("GOVC_SEQ") == "2" {
		for _, f := range st.pc {
			fmt.Fprintln(os.Stderr, "   LEAFFACT", c.Str(f))
		}
	}
	return fail("leaf")
}

// logic: a conjunction; negated in a goal, its parts are hypotheses.
func (st *State) logic(t *Term) bool { return t.op == OAnd }

func (st *State) assumeNot(b *Term) { st.Assume(st.c.Not(b)) }

// instAll instantiates the universally quantified facts of the path at j.
func (st *State) instAll(j *Term) {
	for _, f := range append([]*Term(nil), st.pc...) {
		if f.op == OForall && f.args[0].sort == j.sort {
			st.assumeInst(f, j)
		}
	}
}

func (st *State) assumeInst(f, j *Term) {
	g := st.simp(st.c.Inst(f, j))
	if g.op == OOr {
		r := st.c.False
		for _, a := range g.args {
			if st.decide(a) != -1 {
				r = st.c.Or(r, a)
			}
		}
		g = r
	}
	st.Assume(g)
}

// instMaps: maps that are the same have the same keys, with the same values.
// (The definition lists the keys of one of them; they have equally many.)
func (st *State) instMaps() {
	c := st.c
	var keys []*Term
	seen := map[*Term]bool{}
	for _, f := range st.pc {
		c.Contains(f, func(x *Term) bool {
			if x.op == OSelect && x.sort == SBool && x.args[1].op == OVar && x.args[1].sort == SStr && !seen[x.args[1]] {
				seen[x.args[1]] = true
				keys = append(keys, x.args[1])
			}
			return false
		})
	}
	base := func(t *Term) bool { return t.op == OSelect && t.args[0].op == OVar }
	for _, f := range append([]*Term(nil), st.pc...) {
		if f.op != OUF || f.s != "same" || st.ctorOf(f.args[1]) != tMap || f.bnd {
			continue
		}
		r, v := c.unpack(tMap, f.args[0])[0], c.unpack(tMap, f.args[1])[0]
		rh, vh, rv, vv := st.mapHas(r), st.mapHas(v), st.mapVal(r), st.mapVal(v)
		if !base(rh) || !base(vh) || !base(rv) || !base(vv) {
			continue
		}
		for _, k := range keys {
			in := c.Select(vh, k)
			st.Assume(c.Iff(c.And(c.Neq(r, c.Zero), c.Select(rh, k)), c.And(c.Neq(v, c.Zero), in)))
			st.Assume(c.Implies(c.And(c.Neq(v, c.Zero), in), c.Same(c.Select(rv, k), c.Select(vv, k))))
		}
	}
}

// refuteEnc refutes the path by an element said not to be encodable, once the
// universal facts say what the element is.
func (st *State) refuteEnc() bool {
	for _, f := range append([]*Term(nil), st.pc...) {
		if f.op != ONot || f.args[0].op != OUF || f.args[0].s != "enc" {
			continue
		}
		v := f.args[0].args[0]
		if v.op != OSelect || v.args[1].sort != SInt || st.ctorOf(v) != "" {
			continue
		}
		st.instAll(v.args[1])
		if e := st.unfoldEnc(v); e != nil {
			st.Assume(st.c.Not(e))
		}
		if st.proveLeaf(st.c.False) {
			return true
		}
	}
	return false
}

// splitNeg refutes the path by cases on a negated universal fact (skolemised).
func (st *State) splitNeg() bool {
	c := st.c
	for _, f := range st.pc {
		if f.op != ONot {
			continue
		}
		var cases []*Term
		switch g := f.args[0]; g.op {
		case OAnd:
			has := false
			for _, a := range g.args {
				has = has || a.op == OForall
				cases = append(cases, a)
			}
			if !has {
				continue
			}
		case OForall:
			cases = []*Term{g}
		default:
			continue
		}
		ok := true
		for _, a := range cases {
			a := a
			if !ok {
				break
			}
			ok = st.tryProve(func(s2 *State) bool {
				if a.op != OForall {
					s2.Assume(c.Not(a))
					return s2.proveLeaf(c.False)
				}
				j := c.Fresh("sk", a.args[0].sort)
				s2.Assume(c.Not(c.Inst(a, j)))
				s2.instAll(j)
				r := s2.proveLeaf(c.False)
				if !r && os.Getenv("GOVC_SEQ") != "" {
					fmt.Fprintln(os.Stderr, "splitNeg fails")
					for _, f := range s2.pc {
						fmt.Fprintln(os.Stderr, "   ", c.Str(f))
					}
				}
				return r
			})
		}
		if ok {
			return true
		}
	}
	return false
}

// instMatch instantiates universal facts that say what the element t of an
// array is the same as.
func (st *State) instMatch(t *Term) {
	c := st.c
	if t.op != OSelect || t.args[1].sort != SInt || t.bnd {
		return
	}
	for _, f := range append([]*Term(nil), st.pc...) {
		if f.op != OForall || f.args[0].sort != SInt {
			continue
		}
		bv := f.args[0]
		var js []*Term
		c.Contains(f.args[1], func(x *Term) bool {
			if x.op == OUF && x.s == "same" || x.op == OEq && x.args[0].sort == SAny {
				for _, e := range x.args[:2] {
					if e.op == OSelect && e.args[0] == t.args[0] {
						d := c.Sub(e.args[1], bv)
						if !c.Contains(d, func(y *Term) bool { return y == bv }) && !d.bnd {
							js = append(js, c.Sub(t.args[1], d))
						}
					}
				}
			}
			return false
		})
		for _, j := range js {
			st.assumeInst(f, j)
		}
	}
}
