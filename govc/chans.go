package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels carry ownership: what is sent satisfies the invariant of the
// channel (the requires clauses of the pseudo contract chan.<element>) and is
// an object made by the sender; what is received satisfies it and is known to
// nobody else.

func (st *State) chanCon(t types.Type) (*Contract, types.Type) {
	el := t.Underlying().(*types.Chan).Elem()
	name := "chan." + typeName(el)
	if name[5:6] == "*" {
		name = "chan." + name[6:]
	}
	con := st.c.U.contractFor(name, st, nil)
	if con == nil {
		unsupported("channel of %s without an invariant", typeName(el))
	}
	st.c.U.Used[con.ID()] = true
	return con, el
}

func (st *State) chanEnv(con *Contract, ct, et types.Type, ch, v SV) *Env {
	en := &Env{st: st, vars: map[string]EV{}, con: con}
	if len(con.params) != 2 {
		en.fail("a channel invariant has two parameters")
	}
	en.vars[con.params[0]] = EV{sv: ch, typ: ct}
	en.vars[con.params[1]] = EV{sv: v, typ: et}
	return en
}

func (st *State) bumpG(g string, k *Term, d int64) {
	st.wr("G:"+g, SInt, k, st.c.AddI(st.rd("G:"+g, SInt, k), d))
}

func (st *State) chanSend(fr *Frame, in *ssa.Send) {
	c, u := st.c, st.c.U
	con, el := st.chanCon(in.Chan.Type())
	ch, v := st.val(fr, in.Chan), st.val(fr, in.X)
	en := st.chanEnv(con, in.Chan.Type(), el, ch, v)
	pos := c.P.pos(in.Pos())
	for _, cl := range con.all("requires") {
		tags := cl.tags
		if tags == nil {
			tags = u.allTags()
		}
		st.Prove(en.boolT(cl.expr), "\""+cl.label+"\" of "+con.ID()+" sent in "+fr.label, tags, pos)
	}
	if _, ok := el.Underlying().(*types.Pointer); ok {
		st.Prove(c.Lt(st.leavesOf(v, el)[0], c.Zero), "what is sent to "+con.ID()+" is known to nobody else in "+fr.label, con.tags, pos)
	}
	st.bumpG("csend", ch.t[0], 1)
	st.bumpG("chlen", ch.t[0], 1)
}

func (st *State) chanRecv(fr *Frame, in *ssa.UnOp) SV {
	c := st.c
	if in.CommaOk {
		unsupported("channel receive with ok")
	}
	con, el := st.chanCon(in.X.Type())
	ch := st.val(fr, in.X)
	var v SV
	if _, ok := el.Underlying().(*types.Pointer); ok {
		t := c.Fresh("received", SInt)
		st.Assume(c.region(t))
		v = tv(t)
	} else {
		unsupported("receive of %s", typeName(el))
	}
	en := st.chanEnv(con, in.X.Type(), el, ch, v)
	en.caller = true
	for _, cl := range con.all("requires") {
		st.Assume(en.boolT(cl.expr))
	}
	for _, cl := range con.all("model") { // what its ownership entails
		c.U.Assumed["assumed of what is received from "+con.ID()+": "+cl.label+" "+cl.text] = true
		st.Assume(en.boolT(cl.expr))
	}
	st.bumpG("crecv", ch.t[0], 1)
	st.bumpG("chlen", ch.t[0], -1)
	return v
}

func (st *State) selectOp(fr *Frame, in *ssa.Select) SV {
	unsupported("select")
	return SV{}
}

// A field may carry obligations for whoever overwrites it: the requires
// clauses of the pseudo contract field.<type>.<field>(object, new value),
// evaluated before the assignment.
func (st *State) fieldHook(fr *Frame, in *ssa.Store, a *Addr, v SV) {
	c, u := st.c, st.c.U
	if a.glob != nil || a.idx != nil {
		return
	}
	stt, ok := a.root.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		if a.path != f.Name() && a.path != "" {
			continue
		}
		con := u.Specs.con["field."+typeName(a.root)+"."+f.Name()]
		if con == nil {
			continue
		}
		u.Used[con.ID()] = true
		en := &Env{st: st, vars: map[string]EV{}, con: con}
		if len(con.params) != 1 {
			en.fail("the contract of a field has one parameter")
		}
		en.vars[con.params[0]] = EV{sv: tv(a.ref), typ: types.NewPointer(a.root)}
		for _, cl := range con.all("model") {
			st.Assume(en.boolT(cl.expr))
		}
		for _, cl := range con.all("requires") {
			tags := cl.tags
			if tags == nil {
				tags = u.allTags()
			}
			st.Prove(en.boolT(cl.expr), "\""+cl.label+"\" of "+con.ID()+" assigned in "+fr.label, tags, c.P.pos(in.Pos()))
		}
	}
}
