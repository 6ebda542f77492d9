package main

// Loops.  The invariant of a loop is inferred (by executing the body from a
// generic state and generalising what it does) and then *checked*: the main
// run proves it on entry, assumes it at the head, and proves it again at every
// back edge.  The inference is therefore not trusted.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type slot struct {
	phi     *ssa.Phi
	leaf    int
	name    string // heap location (phi == nil, or content slot)
	ref     *Term
	refLeaf int // content slot: leaf of phi holding the reference
	content bool
	sort    Sort
	entry   *Term
	v       *Term // head variable (nil when closed)
	head    *Term
	form    string
	typ     *Leaf
	local   bool // backing array made by this function
	opt     bool // supposed to keep its value
}

func (s *slot) key() string {
	if s.phi != nil {
		return fmt.Sprintf("phi:%s:%d:%s", s.phi.Name(), s.leaf, s.name)
	}
	return fmt.Sprintf("loc:%s:%d", s.name, s.ref.id)
}

type loopInv struct {
	slots []*slot
	wild  map[string]Sort
	k     *Term
	facts []*Term
	fresh map[string]int
	alloc int64
	keepP map[*ssa.Phi]SV // phis carried unchanged as non-term values
	user  []*clause       // invariant clauses of the contract that hold here
}

// userInv evaluates an invariant clause of the contract in the current state.
// L_x names the variable x of the loop.
func (st *State) userInv(cl *clause, k *Term, lp *loop, vals func(ssa.Value) SV) *Term {
	u := st.c.U
	en := &Env{st: st, vars: map[string]EV{}, con: u.Con, old: st.oldHeap, start: st.starts[lp.head]}
	for n, v := range u.entryVars {
		en.vars[n] = v
	}
	en.vars["iter"] = T(k)
	for n, v := range namedLocals(lp) {
		sv := vals(v)
		if sv.addr != nil && sv.t == nil { // a variable that points to a new object
			sv = tv(st.leavesOf(sv, v.Type())...)
		}
		if sv.t != nil || sv.tup != nil {
			en.vars["L_"+n] = EV{sv: sv, typ: v.Type()}
		}
	}
	for _, p := range headPhis(lp.head) {
		if p.Comment != "" {
			en.vars["L_"+p.Comment] = EV{sv: vals(p), typ: p.Type()}
		}
	}
	return st.simp(en.boolT(cl.expr))
}

// userApplies: the loop has the variables the clause speaks of.
func userApplies(cl *clause, lp *loop) bool {
	ok := true
	ast.Inspect(cl.expr, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is && strings.HasPrefix(id.Name, "L_") {
			has := false
			for _, p := range headPhis(lp.head) {
				has = has || "L_"+p.Comment == id.Name
			}
			has = has || namedLocals(lp)[strings.TrimPrefix(id.Name, "L_")] != nil
			ok = ok && has
		}
		return true
	})
	return ok
}

// namedLocals are the variables assigned once, before the loop.
func namedLocals(lp *loop) map[string]ssa.Value {
	m := map[string]ssa.Value{}
	for d := lp.head.Idom(); d != nil; d = d.Idom() {
		if lp.blocks[d] {
			continue
		}
		for i := len(d.Instrs) - 1; i >= 0; i-- {
			ref, ok := d.Instrs[i].(*ssa.DebugRef)
			if !ok || ref.IsAddr {
				continue
			}
			if id, ok := ref.Expr.(*ast.Ident); ok && m[id.Name] == nil {
				m[id.Name] = ref.X
			}
		}
	}
	return m
}

func (st *State) edgePhi(fr *Frame, prev *ssa.BasicBlock) func(ssa.Value) SV {
	return func(v ssa.Value) SV {
		if p, ok := v.(*ssa.Phi); ok && p.Block() != nil {
			for _, pr := range p.Block().Preds {
				if pr == prev {
					return st.phiEdge(fr, p, prev)
				}
			}
		}
		return fr.env[v]
	}
}

func (st *State) headPhi(fr *Frame) func(ssa.Value) SV {
	return func(v ssa.Value) SV { return fr.env[v] }
}

func (st *State) tryUser(cl *clause, k *Term, fr *Frame, lp *loop, prev *ssa.BasicBlock) bool {
	return st.tryProve(func(s2 *State) bool {
		return s2.proveGoal(s2.splitReads(s2.splitGhosts(s2.userInv(cl, k, lp, s2.edgePhi(fr, prev)), k)), 0)
	})
}

// splitGhosts tells whether a ghost index is that of the iteration before k.
func (st *State) splitGhosts(g *Term, k *Term) *Term {
	c := st.c
	if k == c.Zero {
		return g
	}
	last := c.AddI(k, -1)
	var gs []*Term
	c.Contains(g, func(x *Term) bool {
		if x.op == OVar && x.sort == SInt && strings.HasPrefix(x.s, "ghost:") && x != last {
			for _, y := range gs {
				if y == x {
					return false
				}
			}
			gs = append(gs, x)
		}
		return false
	})
	sort.Slice(gs, func(i, j int) bool { return gs[i].s < gs[j].s })
	for _, x := range gs {
		if st.Branch(c.Eq(x, last)) {
			g = c.Subst(g, map[*Term]*Term{x: last})
		}
	}
	return g
}

// splitReads resolves reads of one index after a write of another.
func (st *State) splitReads(g *Term) *Term {
	c := st.c
	for n := 0; n < 4; n++ {
		var hit *Term
		c.Contains(g, func(x *Term) bool {
			if x.op == OSelect && x.args[0].op == OStore && x.sort == SAny && !x.bnd && (hit == nil || x.id < hit.id) {
				hit = x
			}
			return false
		})
		if hit == nil {
			return g
		}
		w := hit.args[0]
		if st.Branch(c.Eq(w.args[1], hit.args[1])) {
			g = c.Subst(g, map[*Term]*Term{hit: w.args[2]})
		} else {
			g = c.Subst(g, map[*Term]*Term{hit: c.Select(w.args[0], hit.args[1])})
		}
	}
	return g
}

// userInvs: the invariant clauses of the contract preserved by the loop.
func (st *State) userInvs(fr *Frame, lp *loop, inv *loopInv) []*clause {
	bad := map[*clause]bool{}
	st.scoutLoop(fr, lp, inv, fmt.Sprintf("usr%d", len(inv.user)), func(s *State, f2 *Frame, pred *ssa.BasicBlock) {
		for _, cl := range inv.user {
			if !bad[cl] && !s.tryUser(cl, s.c.AddI(inv.k, 1), f2, lp, pred) {
				bad[cl] = true
				if os.Getenv("GOVC_HOUDINI") != "" {
					fmt.Fprintf(os.Stderr, "invariant latch drop in %s block %d: %s\n  %s\n", fr.label, lp.head.Index, cl.text, s.c.Str(s.userInv(cl, s.c.AddI(inv.k, 1), lp, s.edgePhi(f2, pred))))
				}
			}
		}
	})
	var out []*clause
	for _, cl := range inv.user {
		if !bad[cl] {
			out = append(out, cl)
		}
	}
	return out
}

func (st *State) inferLoop(fr *Frame, lp *loop, prev *ssa.BasicBlock) *loopInv {
	var user []*clause
	if u := st.c.U; u.Con != nil && u.entryVars != nil {
		for _, cl := range u.Con.all("invariant") {
			if !userApplies(cl, lp) {
				continue
			}
			if st.tryUser(cl, st.c.Zero, fr, lp, prev) {
				user = append(user, cl)
			} else if os.Getenv("GOVC_HOUDINI") != "" {
				fmt.Fprintf(os.Stderr, "invariant entry drop in %s block %d: %s\n", fr.label, lp.head.Index, cl.text)
			}
		}
	}
	for {
		mark := copyCounts(st.c.fresh)
		inv := st.inferLoop1(fr, lp, prev, user)
		if len(user) == 0 {
			return inv
		}
		left := st.userInvs(fr, lp, inv)
		if len(left) == len(user) {
			return inv
		}
		user = left
		st.c.fresh = mark
	}
}

func copyCounts(m map[string]int) map[string]int {
	n := make(map[string]int, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (st *State) phiEdge(fr *Frame, p *ssa.Phi, prev *ssa.BasicBlock) SV {
	for i, pr := range p.Block().Preds {
		if pr == prev {
			return st.val(fr, p.Edges[i])
		}
	}
	unsupported("phi without edge")
	return SV{}
}

// tryPeel executes an iteration directly when the header condition is a constant.
func (st *State) tryPeel(fr *Frame, lp *loop, prev *ssa.BasicBlock) bool {
	if fr.peels[lp.head] >= 64 {
		return false
	}
	b := lp.head
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || prev == nil {
		return false
	}
	if p, neg := flagOf(lp); p != nil {
		// a flag: an iteration that ends the loop leaves it at its end, see threadExit
		v := st.simp(st.phiEdge(fr, p, prev).t[0])
		out := !lp.blocks[b.Succs[0]]
		return v.isTrue() && out != neg || v.isFalse() && out == neg
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.Extract:
		case *ssa.UnOp:
		case *ssa.Call:
			if bl, ok := in.Call.Value.(*ssa.Builtin); !ok || (bl.Name() != "len" && bl.Name() != "cap") {
				return false
			}
		case *ssa.Next:
			// ranging over a map of known size
		default:
			return false
		}
	}
	s2 := st.clone()
	s2.quiet++
	f2 := fr.clone()
	var vals []SV
	ph := headPhis(b)
	for _, p := range ph {
		vals = append(vals, s2.phiEdge(fr, p, prev))
	}
	for i, p := range ph {
		f2.env[p] = vals[i]
	}
	okc := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(noFork); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		s2.ex = nil
		s2.noFork = true
		for _, in := range b.Instrs[len(ph) : len(b.Instrs)-1] {
			s2.instr(f2, in)
		}
		cond := s2.simp(s2.val(f2, last.Cond).t[0])
		return cond.isTrue() || cond.isFalse()
	}()
	if okc {
		fr.peels[lp.head]++
	}
	return okc
}

// flagOf: the loop runs on a boolean variable (or, neg, on its negation) and
// its head does nothing else.
func flagOf(lp *loop) (p *ssa.Phi, neg bool) {
	b := lp.head
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || lp.blocks[b.Succs[0]] == lp.blocks[b.Succs[1]] {
		return nil, false
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op != token.NOT {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	x := last.Cond
	for {
		if u, ok := x.(*ssa.UnOp); ok && u.Block() == b {
			x, neg = u.X, !neg
			continue
		}
		break
	}
	p, ok = x.(*ssa.Phi)
	if !ok || p.Block() != b {
		return nil, false
	}
	return p, neg
}

// threadExit: at the end of an iteration that clears the flag of the loop, the
// loop is left; every other iteration starts with the flag set.
func (st *State) threadExit(fr *Frame, lp *loop, prev *ssa.BasicBlock) bool {
	p, neg := flagOf(lp)
	if p == nil {
		return false
	}
	v := st.phiEdge(fr, p, prev).t[0]
	out := !lp.blocks[lp.head.Succs[0]] // the loop is left when the condition is true
	return st.Branch(v) == (out != neg)
}

type noFork struct{}

func (st *State) loopKey(fr *Frame, lp *loop) string {
	return fmt.Sprintf("%s|%s|%d|%d", st.ex.path(), strings.Join(st.stack, ">"), lp.head.Index, fr.peels[lp.head])
}

func (st *State) enterLoop(fr *Frame, lp *loop, prev *ssa.BasicBlock) {
	c := st.c
	u := c.U
	key := st.loopKey(fr, lp)
	if st.starts == nil {
		st.starts = map[*ssa.BasicBlock]map[string]*Term{}
	}
	st.starts[lp.head] = copyHeap(st.heap)
	inv := u.loopc[key]
	if inv == nil {
		inv = st.inferLoop(fr, lp, prev)
		inv.fresh = copyCounts(c.fresh)
		u.loopc[key] = inv
		if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "LOOP %s block %d %s\n", fr.label, lp.head.Index, lp.head.Comment)
			for _, s := range inv.slots {
				fmt.Fprintf(os.Stderr, "   %s [%s] entry=%s head=%s\n", s.key(), s.form, c.Str(s.entry), c.Str(s.head))
			}
			for n := range inv.wild {
				fmt.Fprintf(os.Stderr, "   wild %s\n", n)
			}
			for _, f := range inv.facts {
				fmt.Fprintf(os.Stderr, "   fact %s\n", c.Str(f))
			}
		}
	} else {
		c.fresh = copyCounts(inv.fresh)
	}
	pos := c.P.pos(loopPos(lp))
	m0 := inv.entryMap(c)
	for _, f := range inv.facts {
		st.Prove(c.Subst(f, m0), "loop invariant holds on entry in "+fr.label, u.allTags(), pos)
	}
	for _, cl := range inv.user {
		st.Prove(st.userInv(cl, c.Zero, lp, st.edgePhi(fr, prev)), "invariant "+strconv.Quote(cl.label)+" holds on entry in "+fr.label, cl.tagsOr(u, u.Con), pos)
	}
	st.setHead(fr, lp, inv)
	for _, f := range inv.facts {
		st.Assume(f)
	}
	for _, cl := range inv.user {
		st.Assume(st.userInv(cl, inv.k, lp, st.headPhi(fr)))
	}
	fr.active[lp.head] = &activeLoop{lp: lp, inv: inv}
}

func loopPos(lp *loop) (p pos_) {
	for _, in := range lp.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (!p.IsValid() || in.Pos() < p) {
				p = in.Pos()
			}
		}
	}
	return p
}

func (inv *loopInv) entryMap(c *Ctx) map[*Term]*Term {
	m := map[*Term]*Term{inv.k: c.Zero}
	for _, s := range inv.slots {
		if s.v != nil {
			if s.form == "suffix" {
				m[s.v] = c.Zero
			} else {
				m[s.v] = s.entry
			}
		}
	}
	return m
}

// setHead puts the state at the loop head.
func (st *State) setHead(fr *Frame, lp *loop, inv *loopInv) {
	c := st.c
	st.Assume(c.Le(c.Zero, inv.k))
	if inv.alloc > st.allocN {
		st.allocN = inv.alloc
	}
	ph := headPhis(lp.head)
	vals := map[*ssa.Phi][]*Term{}
	for _, s := range inv.slots {
		if s.phi != nil && !s.content {
			if vals[s.phi] == nil {
				vals[s.phi] = make([]*Term, nLeaves(s.phi.Type()))
			}
			vals[s.phi][s.leaf] = s.head
		}
	}
	for _, p := range ph {
		if v, ok := inv.keepP[p]; ok {
			fr.env[p] = v
			continue
		}
		fr.env[p] = SV{t: vals[p]}
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			_ = it
		}
		for _, f := range c.leafFacts(leaves(p.Type()), vals[p]) {
			st.Assume(f)
		}
	}
	for _, n := range sortedKeys(inv.wild) {
		st.heap[n] = c.Fresh("wild", arrSort(SInt, inv.wild[n]))
		st.writes = append(st.writes, write{n, nil})
	}
	for _, s := range inv.slots {
		switch {
		case s.content:
			for _, rs := range inv.slots {
				if rs.phi == s.phi && !rs.content && rs.leaf == s.refLeaf && rs.local && rs.v != nil {
					// made by an earlier iteration: distinct from what this one makes
					st.Assume(c.Or(c.Eq(rs.v, rs.entry), c.regionOf(inv.k, rs.v)))
				}
			}
			st.wr(s.name, s.sort, vals[s.phi][s.refLeaf], s.head)
		case s.phi == nil:
			if s.form == "same" {
				continue
			}
			st.wr(s.name, s.sort, s.ref, s.head)
		}
		if s.form == "suffix" {
			st.Assume(c.Le(c.Zero, s.v))
			st.Assume(c.Le(s.v, c.Len(s.entry)))
		}
	}
}

// nextOf reads the values of the slots at a back edge.
func (st *State) nextOf(fr *Frame, inv *loopInv, pred *ssa.BasicBlock) []*Term {
	out := make([]*Term, len(inv.slots))
	cache := map[*ssa.Phi][]*Term{}
	for i, s := range inv.slots {
		if s.phi != nil {
			ls := cache[s.phi]
			if ls == nil {
				ls = st.leavesOf(st.phiEdge(fr, s.phi, pred), s.phi.Type())
				cache[s.phi] = ls
			}
			if s.content {
				out[i] = st.rd(s.name, s.sort, ls[s.refLeaf])
			} else {
				out[i] = ls[s.leaf]
			}
		} else {
			out[i] = st.rd(s.name, s.sort, s.ref)
		}
		if s.sort == SStr {
			out[i] = st.normT(out[i])
		}
	}
	return out
}

func (st *State) nextMap(inv *loopInv, next []*Term) map[*Term]*Term {
	c := st.c
	m := map[*Term]*Term{inv.k: c.AddI(inv.k, 1)}
	for i, s := range inv.slots {
		if s.v != nil {
			if s.form == "suffix" {
				m[s.v] = c.Sub(c.Len(s.entry), c.Len(next[i]))
			} else {
				m[s.v] = next[i]
			}
		}
	}
	return m
}

// latch is reached at a back edge.
func (st *State) latch(fr *Frame, al *activeLoop, prev *ssa.BasicBlock) {
	if al.scout != nil {
		al.scout(st, fr, prev)
		st.end("scout: latch")
	}
	c := st.c
	inv := al.inv
	pos := c.P.pos(loopPos(al.lp))
	next := st.nextOf(fr, inv, prev)
	m := st.nextMap(inv, next)
	for i, s := range inv.slots {
		g := st.slotGoal(s, next[i], m)
		if g == nil {
			continue
		}
		st.Prove(g, "loop invariant preserved in "+fr.label, c.U.allTags(), pos)
	}
	for _, f := range inv.facts {
		st.Prove(c.Subst(f, m), "loop invariant preserved in "+fr.label, c.U.allTags(), pos)
	}
	for _, cl := range inv.user {
		st.Prove(st.userInv(cl, c.AddI(inv.k, 1), al.lp, st.edgePhi(fr, prev)), "invariant "+strconv.Quote(cl.label)+" preserved in "+fr.label, cl.tagsOr(c.U, c.U.Con), pos)
	}
	for p, v := range inv.keepP {
		nv := st.phiEdge(fr, p, prev)
		if !sameSV(v, nv) {
			unsupported("loop changes a non-term value in %s", fr.label)
		}
	}
	for _, w := range st.writes {
		if w.ref == nil {
			continue
		}
		if !inv.covers(st, w) {
			st.Prove(c.False, "loop writes outside its inferred frame ("+w.name+") in "+fr.label, c.U.allTags(), pos)
		}
	}
	st.end("latch")
}

// covers: the written location is a slot, a wild map or loop-fresh memory.
func (inv *loopInv) covers(st *State, w write) bool {
	if _, ok := inv.wild[w.name]; ok {
		return true
	}
	if n, ok := w.ref.intVal(); ok && n < 0 && -n > inv.alloc {
		return true
	}
	for _, s := range inv.slots {
		if s.phi == nil && s.name == w.name && st.distinct(s.ref, w.ref) == 1 {
			return true
		}
	}
	// the location must then have its value from before the loop
	e, ok := st.loopHeap[w.name]
	if !ok {
		return true // written before this loop only
	}
	_, es := splitArr(st.heap[w.name].sort)
	cur := st.rd(w.name, es, w.ref)
	h := st.heap[w.name]
	st.heap[w.name] = e
	old := st.rd(w.name, es, w.ref)
	st.heap[w.name] = h
	return cur == old
}

func sameSV(a, b SV) bool {
	if a.fn != nil || b.fn != nil {
		return a.fn != nil && b.fn != nil && a.fn.fn == b.fn.fn
	}
	if a.addr != nil && b.addr != nil {
		return a.addr.glob == b.addr.glob && a.addr.ref == b.addr.ref && a.addr.idx == b.addr.idx && a.addr.path == b.addr.path
	}
	return false
}

func (st *State) slotGoal(s *slot, next *Term, m map[*Term]*Term) *Term {
	c := st.c
	if s.v != nil && s.form != "suffix" {
		return nil // plain variable
	}
	g := c.Eq(next, c.Subst(s.head, m))
	if s.form == "suffix" {
		g = c.And(g, c.Le(c.Zero, m[s.v]), c.Le(m[s.v], c.Len(s.entry)))
	}
	return g
}

type latchRec struct {
	next []*Term
	pc   []*Term // facts added since the head
	w    []write
	st   *State
}

func (st *State) scoutLoop(fr *Frame, lp *loop, inv *loopInv, tag string, cb func(s *State, f *Frame, pred *ssa.BasicBlock)) {
	hs := st.clone()
	hf := fr.clone()
	hs.quiet++
	if !strings.HasPrefix(tag, "hou") {
		hs.optim = true
	}
	dead := func() (dead bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(pathEnd); ok {
					dead = true
					return
				}
				panic(r)
			}
		}()
		hs.setHead(hf, lp, inv)
		for _, f := range inv.facts {
			hs.Assume(f)
		}
		for _, cl := range inv.user {
			hs.Assume(hs.userInv(cl, inv.k, lp, hs.headPhi(hf)))
		}
		return false
	}()
	if dead {
		return
	}
	hs.loopHeap = copyHeap(hs.heap)
	st.c.explore(hs, fmt.Sprintf("scout%d.%s", lp.head.Index, tag), func(s *State) {
		f := hf.clone()
		f.active[lp.head] = &activeLoop{lp: lp, inv: inv, scout: cb}
		f.skip = lp.head
		s.run(f, lp.head, nil)
	})
}

func copyHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

func (st *State) inferLoop1(fr *Frame, lp *loop, prev *ssa.BasicBlock, user []*clause) *loopInv {
	c := st.c
	inv := &loopInv{wild: map[string]Sort{}, keepP: map[*ssa.Phi]SV{}, user: user}
	inv.alloc = st.allocN
	mark := copyCounts(c.fresh)
	inv.k = c.Fresh("k", SInt)
	isNew := func(t *Term) bool { // created inside the loop
		if t.op != OVar {
			return false
		}
		i := strings.LastIndex(t.s, "!")
		if i < 0 {
			return false
		}
		var n int
		fmt.Sscan(t.s[i+1:], &n)
		return n > mark[t.s[:i]] && t != inv.k
	}
	unstable := func(t *Term) bool {
		return c.Contains(t, func(x *Term) bool {
			if isNew(x) {
				return true
			}
			if x.op == OLin && len(x.args) == 0 && x.n.IsInt64() && -x.n.Int64() > inv.alloc && x.n.Int64() < 0 && -x.n.Int64() < inv.alloc+5000 {
				return true
			}
			return false
		})
	}
	// phi slots
	for _, p := range headPhis(lp.head) {
		ev := st.phiEdge(fr, p, prev)
		if ev.t == nil && (ev.fn != nil || ev.addr != nil && (ev.addr.glob != nil || ev.addr.idx != nil || ev.addr.path != "")) {
			inv.keepP[p] = ev
			continue
		}
		ls := leaves(p.Type())
		ts := st.leavesOf(ev, p.Type())
		for i := range ls {
			s := &slot{phi: p, leaf: i, sort: ls[i].sort(), entry: ts[i], typ: &ls[i]}
			if s.sort == SStr {
				s.entry = st.normT(s.entry)
			}
			s.v = c.Fresh("h_"+p.Comment, s.sort)
			s.head = s.v
			s.form = "var"
			inv.slots = append(inv.slots, s)
		}
	}
	have := map[string]bool{}
	tried := map[string]bool{}
	addLoc := func(w write, so Sort) bool {
		if w.ref == nil {
			if _, ok := inv.wild[w.name]; !ok {
				inv.wild[w.name] = so
				return true
			}
			return false
		}
		if _, ok := inv.wild[w.name]; ok {
			return false
		}
		if n, ok := w.ref.intVal(); ok && n < 0 && -n > inv.alloc {
			return false // loop-fresh
		}
		if _, ok := c.regions[w.ref]; ok && w.ref.op == OVar && unstable(w.ref) {
			return false // created by a call in the loop
		}
		if unstable(w.ref) || c.Contains(w.ref, func(x *Term) bool { return x == inv.k }) {
			// content of a slice carried by a phi?
			for _, s := range inv.slots {
				if s.content && s.name == w.name {
					return false
				}
			}
			if os.Getenv("GOVC_LOOP") != "" {
				fmt.Println("WILD", w.name, c.Str(w.ref))
			}
			inv.wild[w.name] = so
			var keep []*slot
			for _, s := range inv.slots {
				if s.phi == nil && s.name == w.name {
					continue
				}
				keep = append(keep, s)
			}
			inv.slots = keep
			return true
		}
		s := &slot{name: w.name, ref: w.ref, sort: so, form: "var"}
		if have[s.key()] {
			return false
		}
		have[s.key()] = true
		s.entry = st.rd(w.name, so, w.ref)
		if so == SStr {
			s.entry = st.normT(s.entry)
			ps := Pieces(s.entry)
			for i, p := range ps {
				// first fold with symbolic length
				if p.op == OFold && i == 0 {
					s.form = "shift"
					rest := c.Concat(ps[1:]...)
					s.head = c.Concat(c.refold(p, c.Add(p.args[2], inv.k), p.args[3]), rest)
				}
				break
			}
		}
		if s.head == nil && len(user) > 0 && so != SStr && !tried[s.key()] {
			// with user invariants: try whether the location keeps its value
			tried[s.key()] = true
			s.head, s.form, s.opt = s.entry, "same", true
		}
		if s.head == nil {
			s.v = c.Fresh("h_loc", so)
			s.head = s.v
		}
		inv.slots = append(inv.slots, s)
		return true
	}
	// contents of slices carried by phis with changing backing arrays
	addContent := func(recs []latchRec) bool {
		ch := false
		for i, s := range inv.slots {
			if s.phi == nil || s.content || s.typ == nil || s.typ.kind != kSlRef || s.v == nil {
				continue
			}
			changed := false
			for _, r := range recs {
				if r.next[i] != s.v {
					changed = true
				}
			}
			if !changed {
				continue
			}
			st_, ok := s.phi.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			elem := st_.Elem()
			type cs struct {
				n string
				s Sort
			}
			var cl []cs
			if isByte(elem) {
				cl = append(cl, cs{"B", SStr})
			} else {
				for _, l := range leaves(elem) {
					cl = append(cl, cs{eName(elem, l.path), arrSort(SInt, l.sort())})
				}
			}
			for _, x := range cl {
				n := &slot{phi: s.phi, leaf: -1, refLeaf: s.leaf, content: true, name: x.n, sort: x.s, form: "var"}
				if have[n.key()] {
					continue
				}
				have[n.key()] = true
				n.entry = st.rd(x.n, x.s, s.entry)
				n.v = c.Fresh("h_cont", x.s)
				n.head = n.v
				inv.slots = append(inv.slots, n)
				ch = true
			}
		}
		return ch
	}
	var recs []latchRec
	round := 0
	runScout := func() {
		round++
		if round > 40 {
			unsupported("loop inference does not stabilise in %s", fr.label)
		}
		recs = nil
		saved := copyCounts(c.fresh)
		st.scoutLoop(fr, lp, inv, fmt.Sprint(round), func(s *State, f *Frame, pred *ssa.BasicBlock) {
			r := latchRec{next: s.nextOf(f, inv, pred), st: s}
			r.w = append(r.w, s.writes...)
			r.pc = append(r.pc, s.pc[min(len(st.pc), len(s.pc)):]...)
			recs = append(recs, r)
		})
		_ = saved
	}
	// 1. modified locations
	nw0 := len(st.writes)
	for {
		runScout()
		ch := false
		for _, r := range recs {
			for _, w := range r.w[min(nw0, len(r.w)):] {
				h := r.st.heap[w.name]
				_, so := splitArr(h.sort)
				if addLoc(w, so) {
					ch = true
				}
			}
		}
		if !ch && addContent(recs) {
			ch = true
		}
		if !ch {
			// slots supposed to keep their values
			bad := map[*slot]bool{}
			light := c.smt.light
			c.smt.light = true
			st.proveAt(fr, lp, inv, "opt", func(s2 *State, f *Frame, pred *ssa.BasicBlock) bool {
				nx := s2.nextOf(f, inv, pred)
				for i, s := range inv.slots {
					if s.opt && !bad[s] && nx[i] != s.entry && !s2.tryProve(func(s3 *State) bool { return s3.proveGoal(c.Eq(nx[i], s.entry), 0) }) {
						bad[s] = true
						if os.Getenv("GOVC_LOOP") != "" {
							fmt.Println("NOT KEPT", s.key(), c.Str(nx[i]))
						}
					}
				}
				return true
			})
			c.smt.light = light
			for s := range bad {
				s.opt, s.form = false, "var"
				s.v = c.Fresh("h_loc", s.sort)
				s.head = s.v
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	if len(recs) == 0 {
		// the body never reaches the back edge: nothing changes
		return inv
	}
	for i, s := range inv.slots {
		if s.v != nil && s.typ != nil && s.typ.kind == kSlRef {
			n, ok := s.entry.intVal()
			s.local = ok && n <= 0
			for _, r := range recs {
				if m, ok := r.next[i].intVal(); r.next[i] != s.v && !(ok && m < 0 && -m > inv.alloc) {
					s.local = false
				}
			}
		}
	}
	// 2. closed forms
	for iter := 0; iter < 12; iter++ {
		ch := false
		for i, s := range inv.slots {
			if s.v == nil || s.opt || s.form == "suffix" {
				continue
			}
			if f := st.closedForm(inv, s, i, recs, unstable); f {
				ch = true
				if s.form != "same" && s.form != "affine" {
					break
				}
			}
		}
		if !ch {
			break
		}
		runScout()
	}
	// failed shifts fall back to plain variables
	redo := false
	for i, s := range inv.slots {
		if s.form != "shift" && s.form != "accum" && s.form != "affine" {
			continue
		}
		for _, r := range recs {
			m := r.st.nextMap(inv, r.next)
			if r.next[i] != c.Subst(s.head, m) {
				if os.Getenv("GOVC_LOOP") != "" {
					fmt.Println("FALLBACK", s.key(), s.form, "next", c.Str(r.next[i]), "want", c.Str(c.Subst(s.head, m)), "k", c.Str(inv.k))
				}
				ok := false
				if s.sort == SStr {
					g := c.Eq(r.next[i], c.Subst(s.head, m))
					ok = st.proveAt(fr, lp, inv, fmt.Sprintf("sh%d", i), func(s2 *State, f *Frame, pred *ssa.BasicBlock) bool {
						nx := s2.nextOf(f, inv, pred)
						mm := s2.nextMap(inv, nx)
						return s2.tryProve(func(s3 *State) bool { return s3.proveGoal(c.Eq(nx[i], c.Subst(s.head, mm)), 0) })
					})
					_ = g
				}
				if !ok {
					s.v = c.Fresh("h_loc", s.sort)
					s.head = s.v
					s.form = "var"
					redo = true
				}
				break
			}
		}
	}
	if redo {
		runScout()
	}
	// suffix forms for what is left
	for i, s := range inv.slots {
		if s.sort == SStr && s.form == "var" {
			ok := true
			for _, r := range recs {
				n := r.next[i]
				if n == s.v {
					continue
				}
				b, _, hi, isv := c.subView(n)
				if !(isv && b == s.v && hi == c.Len(s.v)) && !(n == c.Empty) {
					ok = false
				}
			}
			if ok {
				s.form = "suffix"
				s.v = c.Fresh("h_q", SInt)
				s.head = c.SubS(s.entry, s.v, c.Len(s.entry))
				redo = true
			}
		}
	}
	if redo {
		runScout()
	}
	// 3. facts
	if con := c.U.Con; con != nil && len(con.all("plain")) > 0 && len(inv.user) > 0 {
		return inv // the invariants of the contract are enough
	}
	inv.facts = append(inv.facts, st.houdini(fr, lp, inv, st.candidates(inv, recs, unstable, isNew))...)
	runScout()
	more := st.arrayFacts(inv, recs, unstable, isNew)
	if len(more) > 0 {
		inv.facts = append(inv.facts, st.houdini(fr, lp, inv, more)...)
	}
	return inv
}

// proveAt checks a predicate at every back edge.
func (st *State) proveAt(fr *Frame, lp *loop, inv *loopInv, tag string, f func(s *State, f *Frame, pred *ssa.BasicBlock) bool) bool {
	ok := true
	st.scoutLoop(fr, lp, inv, tag, func(s *State, fr2 *Frame, pred *ssa.BasicBlock) {
		if ok && !f(s, fr2, pred) {
			ok = false
		}
	})
	return ok
}

func (st *State) closedForm(inv *loopInv, s *slot, i int, recs []latchRec, unstable func(*Term) bool) bool {
	c := st.c
	same := true
	for _, r := range recs {
		if r.next[i] != s.v {
			same = false
		}
	}
	if same {
		s.form = "same"
		s.head = s.entry
		s.v = nil
		return true
	}
	if s.typ != nil && s.typ.kind == kSlRef {
		return false
	}
	same = s.sort == SInt
	for _, r := range recs {
		if r.next[i] != s.v && r.next[i] != s.entry {
			same = false
		}
	}
	if same {
		s.form = "same"
		s.head = s.entry
		s.v = nil
		return true
	}
	switch s.sort {
	case SInt:
		var d *big.Int
		for _, r := range recs {
			df := c.Sub(r.next[i], s.v)
			n, ok := df.isInt()
			if !ok || d != nil && d.Cmp(n) != 0 {
				return false
			}
			d = n
		}
		s.form = "affine"
		s.head = c.Add(s.entry, c.Scale(inv.k, d))
		s.v = nil
		return true
	case SStr:
		var X *Term
		for _, r := range recs {
			ps := Pieces(r.next[i])
			if len(ps) == 0 || ps[0] != s.v {
				return false
			}
			x := c.Concat(ps[1:]...)
			if X != nil && X != x {
				return false
			}
			X = x
		}
		if X == nil || unstable(X) {
			return false
		}
		k := inv.k
		s.form = "accum"
		s.head = c.Concat(s.entry, c.Fold(c.Zero, k, func(j *Term) *Term { return c.Subst(X, map[*Term]*Term{k: j}) }))
		s.v = nil
		return true
	}
	return false
}

// candidates proposes invariants after closed forms are known.
func (st *State) candidates(inv *loopInv, recs []latchRec, unstable, isNew func(*Term) bool) []*Term {
	c := st.c
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !t.isTrue() && !t.isFalse() && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	var strs []*slot
	var strI []int
	for i, s := range inv.slots {
		if s.sort == SStr && s.form != "same" && s.phi == nil {
			strs = append(strs, s)
			strI = append(strI, i)
		}
		if s.form == "shift" {
			p := Pieces(s.entry)[0]
			add(c.Le(c.Add(p.args[2], inv.k), p.args[3]))
		}
	}
	// framing
	for _, s := range strs {
		if s.form == "var" && st.tryProve(func(s2 *State) bool { return s2.proveGoal(c.UF("wf", SBool, s.entry), 0) }) {
			add(c.UF("wf", SBool, s.v))
		}
	}
	for a, w := range strs {
		if w.form != "var" {
			continue
		}
		for b, s := range strs {
			if a == b {
				continue
			}
			head := c.Concat(c.UF("unframe", SStr, w.v), s.head)
			ent := c.Concat(c.UF("unframe", SStr, w.entry), s.entry)
			var X *Term
			ok := true
			for _, r := range recs {
				ns := r.st.normT(c.Concat(c.UF("unframe", SStr, r.next[strI[a]]), r.next[strI[b]]))
				hs := r.st.normT(head)
				if os.Getenv("GOVC_LOOP") != "" {
					fmt.Println("CAND next", c.Str(ns), "head", c.Str(hs))
				}
				if rest, k := r.st.stripPrefix(ns, hs); k && (X == nil || X == rest) && !unstable(rest) {
					X = rest
				} else {
					ok = false
				}
			}
			if ok && X != nil {
				k := inv.k
				add(c.Eq(head, c.Concat(ent, c.Fold(c.Zero, k, func(j *Term) *Term { return c.Subst(X, map[*Term]*Term{k: j}) }))))
			} else {
				// conserved
				add(c.Eq(head, ent))
			}
		}
	}
	// reading chunks: pos advances over framed data, a buffer accumulates it
	for _, p := range inv.slots {
		var rng *Term
		switch {
		case p.form == "suffix":
			rng = c.SubS(p.entry, c.Zero, p.v)
		case p.name != "G:pos" || p.phi != nil || p.form == "same":
			continue
		default:
			in := c.UF("inp", SStr, p.ref)
			rng = c.SubS(in, p.entry, p.head)
			add(c.Le(p.entry, p.head))
			add(c.Le(p.head, c.Len(in)))
		}
		add(c.UF("wf", SBool, rng))
		for _, s := range strs {
			if s.form == "var" {
				add(c.Eq(s.v, c.Concat(s.entry, c.UF("unframe", SStr, rng))))
			}
		}
		for _, s := range inv.slots {
			if s.sort == SStr && s.form == "var" && s.phi != nil {
				add(c.Eq(s.v, c.Concat(s.entry, c.UF("unframe", SStr, rng))))
			}
		}
	}
	// local backing arrays
	for _, s := range inv.slots {
		if s.v != nil && s.typ != nil && s.typ.kind == kSlRef {
			if n, ok := s.entry.intVal(); ok && n <= 0 {
				add(c.Le(s.v, c.Zero))
			}
		}
	}
	// plain integer variables
	for i, s := range inv.slots {
		if s.sort != SInt || s.v == nil || s.form != "var" || s.typ != nil && s.typ.kind == kSlRef {
			continue
		}
		add(c.Le(s.entry, s.v))
		add(c.Le(s.v, s.entry))
		for _, r := range recs {
			for _, f := range r.pc {
				if f.op != OLe0 {
					continue
				}
				as, cs, _ := lin(f.args[0])
				for q, a := range as {
					if a == s.v && cs[q].CmpAbs(big.NewInt(1)) == 0 {
						rest := c.Subst(f.args[0], map[*Term]*Term{s.v: c.Zero})
						if !c.Contains(rest, func(x *Term) bool { return isNew(x) && !slotVar(inv, x) }) {
							add(f)
							add(c.Le0(c.AddI(f.args[0], -1)))
						}
					}
				}
			}
		}
		_ = i
	}
	for _, s := range inv.slots {
		if s.v != nil && s.form == "var" && s.sort != SInt && s.phi != nil {
			if s.sort == SBool {
				add(c.Iff(s.v, s.entry))
			}
		}
		// lengths
		if s.sort == SStr && s.form == "var" {
			add(c.Le(c.Len(s.entry), c.Len(s.v)))
		}
	}
	for _, r := range recs {
		for _, f := range r.pc {
			st.guardCand(inv, f, isNew, add)
		}
	}
	if len(inv.slots) > 0 {
		for _, t := range c.U.loopTemplates(st, inv) {
			add(t)
		}
	}
	return out
}

func slotVar(inv *loopInv, x *Term) bool {
	for _, s := range inv.slots {
		if s.v == x {
			return true
		}
	}
	return x == inv.k
}

// guardCand: a fact about iteration k at the back edge held for all earlier iterations.
func (st *State) guardCand(inv *loopInv, f *Term, isNew func(*Term) bool, add func(*Term)) {
	c := st.c
	g := f
	if g.op == ONot {
		g = g.args[0]
	}
	if g.op != OLe0 && g.op != OEq0 && g.op != OIs && g.op != OOr && !(g.op == OUF && g.sort == SBool) && g.op != OSelect {
		return
	}
	if c.Contains(f, isNew) {
		return
	}
	if !c.Contains(f, func(x *Term) bool { return x == inv.k }) {
		return
	}
	k := inv.k
	if g.op == OLe0 || g.op == OEq0 {
		add(c.Or(c.Le(k, c.Zero), c.Subst(f, map[*Term]*Term{k: c.AddI(k, -1)})))
		if len(f.args) == 1 && f.args[0].op == OLin && !c.Contains(f, func(x *Term) bool { return x.op == OSelect || x.op == OUF && x.s != "slen" }) {
			return
		}
	}
	add(c.ForallRange(k, func(j *Term) *Term { return c.Subst(f, map[*Term]*Term{k: j}) }))
}

// arrayFacts generalises stores at iteration-dependent indices.
func (st *State) arrayFacts(inv *loopInv, recs []latchRec, unstable, isNew func(*Term) bool) []*Term {
	c := st.c
	k := inv.k
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !t.isTrue() && !t.isFalse() && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	atJ := func(t, j *Term) *Term { return c.Subst(t, map[*Term]*Term{k: j}) }
	for i, s := range inv.slots {
		if s.v == nil || !strings.HasPrefix(string(s.sort), "(Array Int") && !strings.HasPrefix(string(s.sort), "(Array Str") {
			continue
		}
		strIdx := strings.HasPrefix(string(s.sort), "(Array Str")
		for _, r := range recs {
			t := r.next[i]
			for t.op == OStore {
				idx, val := t.args[1], t.args[2]
				t = t.args[0]
				if strIdx {
					idx = r.st.resolveStr(idx)
				}
				if c.Contains(idx, func(x *Term) bool { return isNew(x) }) {
					continue
				}
				if !c.Contains(idx, func(x *Term) bool { return x == k }) {
					continue
				}
				if !strIdx {
					// frame: below the first index nothing changes
					i0 := c.Subst(idx, map[*Term]*Term{k: c.Zero})
					add(c.withPatterns2(c.Forall(SInt, func(j *Term) *Term {
						return c.Or(c.Le(i0, j), c.Eq(c.Select(s.v, j), c.Select(s.entry, j)))
					}), s.v))
				}
				if strIdx && idx.op == OUF && idx.s == "ord" && val.isTrue() {
					H := idx.args[0]
					add(c.withPatterns2(c.Forall(SStr, func(x *Term) *Term {
						oi := c.UF("ordidx", SInt, H, x)
						return c.Or(c.Not(c.Select(s.v, x)), c.Select(s.entry, x), c.And(c.Le(c.Zero, oi), c.Lt(oi, k)))
					}), s.v))
					for _, l := range inv.slots {
						if l.name == "M:len" && l.phi == nil && l.ref == s.ref && l.v != nil {
							add(c.Eq(l.v, c.Add(l.entry, k)))
						}
					}
				}
				if !c.Contains(val, isNew) && !unstable(val) {
					add(c.ForallRange(k, func(j *Term) *Term { return c.Eq(c.Select(s.v, atJ(idx, j)), atJ(val, j)) }))
					continue
				}
				// value introduced in this iteration: generalise what is known about it
				for _, f := range r.pc {
					if !c.Contains(f, func(x *Term) bool { return x == val }) {
						continue
					}
					g := c.Subst(f, map[*Term]*Term{val: c.Select(s.v, atJ(idx, k))})
					if c.Contains(g, func(x *Term) bool { return isNew(x) && x != s.v }) || unstableLit(c, g, inv) {
						continue
					}
					add(c.ForallRange(k, func(j *Term) *Term { return atJ(g, j) }))
				}
				// constructor application over new values: relate fields
				if val.op == OCtor {
					add(c.ForallRange(k, func(j *Term) *Term { return c.Is(val.s, c.Select(s.v, atJ(idx, j))) }))
					for ai, a := range val.args {
						if a.op == OVar && isNew(a) {
							for _, f := range r.pc {
								if !c.Contains(f, func(x *Term) bool { return x == a }) {
									continue
								}
								g := c.Subst(f, map[*Term]*Term{a: c.SelC(val.s, ai, c.Select(s.v, atJ(idx, k)))})
								if c.Contains(g, func(x *Term) bool { return isNew(x) && x != s.v }) || unstableLit(c, g, inv) {
									continue
								}
								add(c.ForallRange(k, func(j *Term) *Term { return atJ(g, j) }))
							}
						} else if !c.Contains(a, isNew) && !unstable(a) {
							add(c.ForallRange(k, func(j *Term) *Term {
								return c.Eq(c.SelC(val.s, ai, c.Select(s.v, atJ(idx, j))), atJ(a, j))
							}))
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].size < out[j].size })
	return out
}

func unstableLit(c *Ctx, t *Term, inv *loopInv) bool {
	return c.Contains(t, func(x *Term) bool {
		return x.op == OLin && len(x.args) == 0 && x.n.IsInt64() && x.n.Int64() < 0 && -x.n.Int64() > inv.alloc && -x.n.Int64() < inv.alloc+5000
	})
}

func (c *Ctx) withPatterns2(q, arr *Term) *Term {
	if q.op != OForall {
		return q
	}
	return c.mkForall([]*Term{q.args[0], q.args[1], c.Select(arr, q.args[0])})
}

// houdini keeps the candidates that hold on entry and are preserved.
func (st *State) houdini(fr *Frame, lp *loop, inv *loopInv, cand []*Term) []*Term {
	c := st.c
	defer func(l bool) { c.smt.light = l }(c.smt.light)
	c.smt.light = len(inv.user) > 0 || c.U.Con != nil && len(c.U.Con.all("invariant")) > 0
	m0 := inv.entryMap(c)
	dbg := os.Getenv("GOVC_HOUDINI") != ""
	var live []*Term
	for _, f := range cand {
		if f.op == OForall && c.Contains(f, func(x *Term) bool { return x.op == OMod && c.Contains(x, func(y *Term) bool { return y == f.args[0] }) }) {
			continue // of no use, and hard for the solver
		}
		g := c.Subst(f, m0)
		if st.tryProve(func(s2 *State) bool { return s2.proveGoal(g, 0) }) {
			live = append(live, f)
		} else if dbg {
			fmt.Fprintf(os.Stderr, "houdini entry drop: %s\n", c.Str(f))
		}
	}
	base := inv.facts
	defer func() { inv.facts = base }()
	for round := 0; len(live) > 0; round++ {
		inv.facts = append(append([]*Term(nil), base...), live...)
		bad := map[*Term]bool{}
		st.scoutLoop(fr, lp, inv, fmt.Sprintf("hou%d.%d", len(cand), round), func(s *State, f2 *Frame, pred *ssa.BasicBlock) {
			next := s.nextOf(f2, inv, pred)
			m := s.nextMap(inv, next)
			for _, f := range live {
				if bad[f] {
					continue
				}
				g := c.Subst(f, m)
				if !s.tryProve(func(s2 *State) bool { return s2.proveGoal(g, 0) }) {
					bad[f] = true
					if dbg {
						fmt.Fprintf(os.Stderr, "houdini latch drop: %s\n   at %s\n", c.Str(f), c.Str(g))
					}
				}
			}
		})
		if len(bad) == 0 {
			break
		}
		var nl []*Term
		for _, f := range live {
			if !bad[f] {
				nl = append(nl, f)
			}
		}
		live = nl
	}
	return live
}

// resolveStr rewrites a string by the equalities of the path, also those on
// the interface value it was taken from.
func (st *State) resolveStr(t *Term) *Term {
	c := st.c
	if t.op == OSel {
		for _, f := range st.pc {
			if f.op == OEq && f.args[0].sort == SAny {
				for i := 0; i < 2; i++ {
					if f.args[i] == t.args[0] && f.args[1-i].op == OCtor && f.args[1-i].s == t.s {
						return st.normT(c.SelC(t.s, int(t.n.Int64()), f.args[1-i]))
					}
				}
			}
		}
	}
	return st.normT(t)
}
