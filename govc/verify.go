package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// registerCtors declares every dynamic type the program can put in or ask of
// an interface, before anything is sent to the solver.
func (c *Ctx) registerCtors() {
	add := func(n string, fs ...Sort) {
		if c.ctors[n] == nil {
			c.ctors[n] = &CtorInfo{name: n, fields: fs}
			c.ctorL = append(c.ctorL, n)
		}
	}
	add("nil")
	add("other", SInt)
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		c.ctorFor(types.Typ[b])
	}
	empty := types.NewInterfaceType(nil, nil)
	empty.Complete()
	c.ctorFor(types.NewSlice(empty))
	c.ctorFor(types.NewSlice(types.Typ[types.Uint8]))
	c.ctorFor(types.NewMap(types.Typ[types.String], empty))
	var ts []types.Type
	seen := map[string]bool{}
	note := func(t types.Type) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return
		}
		if n := typeName(t); !seen[n] {
			seen[n] = true
			ts = append(ts, t)
		}
	}
	fns := c.P.allFuncs()
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					note(in.X.Type())
				case *ssa.TypeAssert:
					note(in.AssertedType)
				}
			}
		}
	}
	for _, path := range c.P.order {
		for _, m := range c.P.pkgs[path].Scope().Names() {
			if tn, ok := c.P.pkgs[path].Scope().Lookup(m).(*types.TypeName); ok {
				if _, ok := structSpecs[typeName(tn.Type())]; ok {
					note(tn.Type())
				}
				if n := typeName(tn.Type()); n == "errors.Error" || n == "bolt.boltConn" {
					note(types.NewPointer(tn.Type()))
				}
			}
		}
	}
	for _, sp := range c.P.ssa.AllPackages() {
		if sp.Pkg.Path() == "bytes" {
			note(types.NewPointer(sp.Pkg.Scope().Lookup("Buffer").Type()))
		}
		if sp.Pkg.Path() == "encoding/binary" {
			for _, n := range []string{"bigEndian", "littleEndian"} {
				note(sp.Pkg.Scope().Lookup(n).Type())
			}
		}
	}
	sort.Slice(ts, func(i, j int) bool { return typeName(ts[i]) < typeName(ts[j]) })
	for _, t := range ts {
		c.ctorFor(t)
	}
}

func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, k := range sortedKeys(p.funcs) {
		add(p.funcs[k])
	}
	for _, path := range p.order {
		add(p.spkg[path].Func("init"))
		for i := 1; ; i++ {
			f := p.spkg[path].Func(fmt.Sprintf("init#%d", i))
			if f == nil {
				break
			}
			add(f)
		}
	}
	return out
}

// mutableGlobals: package variables some function other than init assigns.
func (p *Program) mutableGlobals() map[string]bool {
	m := map[string]bool{}
	for _, f := range p.allFuncs() {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g := baseGlobal(in.Addr); g != nil {
						m[g.String()] = true
					}
				}
			}
		}
	}
	return m
}

func baseGlobal(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return baseGlobal(v.X)
	case *ssa.IndexAddr:
		return baseGlobal(v.X)
	case *ssa.UnOp:
		return baseGlobal(v.X)
	case *ssa.Slice:
		return baseGlobal(v.X)
	}
	return nil
}

// runInits gives package variables their initial values.
func (st *State) runInits() {
	mut := st.c.P.mutableGlobals()
	for _, path := range st.c.P.order {
		if shortPkg(path) == "log" {
			continue
		}
		f := st.c.P.spkg[path].Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		st.exec(f, nil, nil)
	}
	for k := range st.heap {
		if strings.HasPrefix(k, "V:") {
			n := k[2:]
			if i := strings.LastIndex(n, ":"); i >= 0 {
				n = n[:i]
			}
			if mut[n] {
				delete(st.heap, k)
			}
		}
	}
	st.writes = nil
}

// VerifyUnit checks one function against one of its contracts.
func VerifyUnit(p *Program, sp *Specs, con *Contract) (u *Unit) {
	c := NewCtx(p)
	u = &Unit{Name: con.ID(), C: c, Con: con, Obl: map[string]*Oblig{}, Assumed: map[string]bool{}, Inlined: map[string]bool{}, Used: map[string]bool{}, Lib: map[string]bool{}, loopc: map[string]*loopInv{}, Specs: sp, Fam: con.Fam}
	u.PanicTag = con.panics
	if u.PanicTag == nil {
		u.PanicTag = con.tags
	}
	c.U = u
	t0 := time.Now()
	defer func() {
		u.Secs = time.Since(t0).Seconds()
		if c.smt != nil {
			u.Queries = c.smt.Queries
			u.Unknown = c.smt.Unknown
			u.SolverS = c.smt.Time.Seconds()
			c.smt.stop()
		}
		if r := recover(); r != nil {
			switch r := r.(type) {
			case toolErr:
				u.Errors = append(u.Errors, r.msg)
			case unsup:
				u.Errors = append(u.Errors, "outside the verifier's reach: "+r.msg)
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				u.Errors = append(u.Errors, fmt.Sprint("internal error: ", r))
			}
		}
	}()
	fn := p.funcs[con.Fn]
	if fn == nil {
		panic(toolErr{"function " + con.Fn + " does not exist"})
	}
	c.registerCtors()
	c.smt = NewSolver(c)
	st0 := NewState(c)
	c.explore(st0, "unit", func(st *State) {
		st.runInits()
		en := &Env{st: st, vars: map[string]EV{}, con: con}
		var args []SV
		for _, prm := range fn.Params {
			args = append(args, st.oldVal(prm.Name(), prm.Type()))
		}
		en.bindParams(con, fn, args)
		for _, g := range con.ghosts {
			v := c.Var("ghost:"+g[0], Sort(g[1]))
			c.markOld(v)
			en.vars[g[0]] = T(v)
		}
		en.old = copyHeap(st.heap)
		st.oldHeap = en.old
		en.lets(con)
		for _, cl := range con.all("requires") {
			st.Assume(st.simp(en.boolT(cl.expr)))
		}
		for _, cl := range con.all("assume") {
			st.Assume(st.simp(en.boolT(cl.expr)))
			u.Assumed["assumed in "+con.ID()+": "+cl.label+" "+cl.text] = true
		}
		for _, cl := range con.all("cases") { // one path per kind of value
			v := en.term(cl.expr)
			if !st.Branch(c.IsInt(v)) {
				for _, k := range decCases() {
					if st.Branch(c.Is(k, v)) {
						break
					}
				}
			}
		}
		if con.alloc != nil {
			st.vars["allocbound"] = en.term(con.alloc.expr)
		}
		for _, cl := range con.all("decreases") {
			st.vars["measure"] = en.term(cl.expr)
		}
		en.old = copyHeap(st.heap)
		st.oldHeap = en.old
		u.entryVars = map[string]EV{}
		for n, v := range en.vars {
			u.entryVars[n] = v
		}
		res := st.exec(fn, args, nil)
		u.Exits++
		en.bindResults(con, fn, res)
		pos := p.pos(fn.Pos())
		for _, cl := range con.all("sets") {
			l := en.locs(cl.lhs)
			v := en.eval(cl.expr)
			g := c.True
			for i, x := range l {
				w := c.zeroOf(x.sort)
				if !v.nil_ {
					w = en.leaves(v)[i]
				}
				g = c.And(g, c.Eq(st.rd(x.name, x.sort, x.ref), w))
			}
			st.Prove(g, "sets "+cl.text, cl.tagsOr(u, con), pos)
		}
		for _, cl := range con.all("lemma") {
			st.Assume(st.simp(en.boolT(cl.expr)))
			u.Assumed["lemma "+exprStr(cl.expr)] = true
		}
		for _, cl := range con.all("ensures") {
			st.Prove(en.boolT(cl.expr), "ensures \""+cl.label+"\"", cl.tagsOr(u, con), pos)
		}
		for _, cl := range con.all("fresh") {
			for _, n := range cl.names {
				root, path, _ := strings.Cut(n, ".")
				ev := en.vars[root]
				evl := en.leaves(ev)
				g := c.True
				for k, l := range leaves(ev.typ) {
					if path != "" && l.path != path {
						continue
					}
					switch l.kind {
					case kRef, kSlRef:
						g = c.And(g, c.Le(evl[k], c.Zero))
					case kAny:
						if c.freshRes[evl[k]] { // the fresh result of a callee
							continue
						}
						for _, cn := range c.ctorL {
							ct := c.ctorType(cn)
							if ct == nil {
								continue
							}
							for i, x := range leaves(ct) {
								if x.kind == kRef || x.kind == kSlRef {
									g = c.And(g, c.Implies(c.Is(cn, evl[k]), c.Le(c.SelC(cn, i, evl[k]), c.Zero)))
								}
							}
						}
					}
				}
				st.Prove(g, "fresh "+n, con.tags, pos)
			}
		}
		st.checkFrame(en, con, pos)
		if u.Reached == 0 {
			if c.smt.Check(st.pc, c.True, 2000, false) != rUnsat {
				u.Reached++
			}
		}
	})
	if u.Reached == 0 && len(u.Errors) == 0 {
		u.Errors = append(u.Errors, "no feasible path reaches the end of the function (vacuous)")
	}
	return u
}

// checkFrame: every location written existed not before or is in modifies.
func (st *State) checkFrame(en *Env, con *Contract, pos string) {
	c := st.c
	var allowed []loc
	cur := st.heap
	st.heap = en.old
	for _, cl := range con.all("modifies") {
		allowed = append(allowed, en.locs(cl.expr)...)
	}
	st.heap = cur
	hv := map[string]bool{}
	for _, cl := range con.all("havoc") {
		for _, n := range cl.names {
			hv[n] = true
		}
	}
	done := map[string]bool{}
	for _, w := range st.writes {
		if strings.HasPrefix(w.name, "I:") || hv[w.name] {
			continue
		}
		if w.ref == nil {
			st.Prove(c.False, "frame: "+w.name+" may change as a whole", con.tags, pos)
			continue
		}
		if k, ok := w.ref.intVal(); ok && k < 0 {
			continue
		}
		key := fmt.Sprintf("%s@%d", w.name, w.ref.id)
		if done[key] {
			continue
		}
		done[key] = true
		g := c.Lt(w.ref, c.Zero)
		if strings.HasPrefix(w.name, "E:") || w.name == "B" {
			g = c.Le(w.ref, c.Zero) // a nil slice has no elements
		}
		for _, a := range allowed {
			if a.name == w.name {
				g = c.Or(g, c.Eq(a.ref, w.ref))
			}
		}
		if now, was := st.heap[w.name], en.old[w.name]; now != nil && was != nil {
			g = c.Or(g, c.Eq(c.Select(now, w.ref), c.Select(was, w.ref))) // written back
		}
		st.Prove(g, "frame: write to "+w.name, con.tags, pos)
		for _, a := range allowed {
			if a.name == w.name && a.win != nil && a.ref == w.ref {
				now := st.rd(w.name, SStr, w.ref)
				st.heap = en.old
				was := st.rd(w.name, SStr, w.ref)
				st.heap = cur
				lo, hi := a.win[1], c.Add(a.win[1], a.win[2])
				st.Prove(c.And(c.Eq(c.Len(now), c.Len(was)), c.Eq(st.normT(c.SubS(now, c.Zero, lo)), c.SubS(was, c.Zero, lo)), c.Eq(st.normT(c.SubS(now, hi, c.Len(was))), st.normT(c.SubS(was, hi, c.Len(was))))), "frame: write outside the slice", con.tags, pos)
			}
		}
	}
}
