package main

import "go/types"

// Models of the network and time functions the driver uses.  A socket is
// identified by sock(v), v the net.Conn value; its ghosts are
//   nread/nwrite  transfers attempted, rarm/warm deadline armed last,
//   rused/wused   deadline in force at the last transfer,
//   tf            a transfer has failed, open/closed state: nclosed.

func init() {
	for k, s := range map[string]Sort{
		"nread": SInt, "nwrite": SInt, "rarm": SInt, "warm": SInt, "rused": SInt, "wused": SInt,
		"tf": SBool, "rset": SBool, "wset": SBool, "nclose": SInt, "wlog": SStr, "rlog": SStr, "last": SAny,
		"se": SInt, "sp": SInt, "re": SInt, "rp": SInt, "ri": SInt, "ack": SInt, "nf": SInt,
		"srvf": SBool, "fl": SAny, "csend": SInt, "chlen": SInt, "chcap": SInt, "owner": SInt, "crecv": SInt, "sent": SInt, "clock": SInt,
	} {
		ghostMaps[k] = s
	}
	for k, s := range map[string]Sort{
		"causeE": SAny, "sock": SInt, "conf": SBool, "rec": SAny, "summ": SAny, "nrec": SInt, "snoc": SInt, "nsent": SInt, "sentat": SAny, "tadd": SInt, "quiet": SBool,
	} {
		specUFs[k] = s
	}
	F := libFuncs
	F["time.Now"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		now := c.Add(st.rd("G:clock", SInt, c.Zero), c.Int(1))
		st.wr("G:clock", SInt, c.Zero, now)
		v := st.freshVal("now", l.fn.Signature.Results().At(0).Type())
		v.t = append([]*Term(nil), v.t...)
		for i, x := range v.t {
			if x.sort == SInt {
				v.t[i] = now
				break
			}
		}
		return v
	}
	F["(time.Time).Add"] = func(l *libCall) SV {
		c := l.c()
		t := append([]*Term(nil), l.t(0)...)
		for i, x := range t {
			if x.sort == SInt {
				t[i] = c.UF("tadd", SInt, x, l.t(1)[0])
				break
			}
		}
		return tv(t...)
	}
	firstInt := func(t []*Term) *Term {
		for _, x := range t {
			if x.sort == SInt {
				return x
			}
		}
		return nil
	}
	arm := func(g string) libFn {
		return func(l *libCall) SV {
			st, c := l.st, l.c()
			k := c.sock(l.recv)
			if st.Choose(2, "set deadline") == 1 {
				return tv(st.netErr("deadline"))
			}
			st.wr("G:"+g, SInt, k, firstInt(l.t(0)))
			st.wr("G:"+g[:1]+"set", SBool, k, c.True)
			return c.nilErr()
		}
	}
	libIface["net.Conn.SetReadDeadline"] = arm("rarm")
	libIface["net.Conn.SetWriteDeadline"] = arm("warm")
	bump := func(st *State, g string, k *Term) {
		st.wr("G:"+g, SInt, k, st.c.Add(st.rd("G:"+g, SInt, k), st.c.Int(1)))
	}
	libIface["net.Conn.Read"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		k := c.sock(l.recv)
		p := l.t(0)
		// (reading nothing does not wait)
		st.Prove(c.Or(st.rd("G:rset", SBool, k), c.Eq(p[2], c.Zero)), "a read deadline is armed for every read", []string{"C19"}, c.P.pos(l.pos))
		st.wr("G:rset", SBool, k, c.False)
		n := c.Fresh("nread", SInt)
		st.Assume(c.And(c.Le(c.Zero, n), c.Le(n, p[2])))
		got := st.freshStr("netdata", n)
		st.setBytes(p, c.Concat(got, st.freshStr("scratch", c.Sub(p[2], n))))
		st.wr("G:rlog", SStr, k, c.Concat(st.rd("G:rlog", SStr, k), got))
		bump(st, "nread", k)
		st.wr("G:rused", SInt, k, st.rd("G:rarm", SInt, k))
		if st.Choose(2, "net read") == 1 {
			// a transfer that delivers all that was asked for has not failed
			st.wr("G:tf", SBool, k, c.Or(st.rd("G:tf", SBool, k), c.Lt(n, p[2])))
			return pair(tv(n), tv(st.netErr("netread")))
		}
		return pair(tv(n), c.nilErr())
	}
	libIface["net.Conn.Write"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		k := c.sock(l.recv)
		p := l.t(0)
		st.Prove(st.rd("G:wset", SBool, k), "a write deadline is armed for every write", []string{"C19"}, c.P.pos(l.pos))
		st.wr("G:wset", SBool, k, c.False)
		bump(st, "nwrite", k)
		st.wr("G:wused", SInt, k, st.rd("G:warm", SInt, k))
		log := st.rd("G:wlog", SStr, k)
		if st.Choose(2, "net write") == 1 {
			n := c.Fresh("nwritten", SInt)
			st.Assume(c.And(c.Le(c.Zero, n), c.Le(n, p[2])))
			st.wr("G:tf", SBool, k, c.True)
			st.wr("G:wlog", SStr, k, c.Concat(log, st.freshStr("partial", n)))
			return pair(tv(n), tv(st.netErr("netwrite")))
		}
		st.wr("G:wlog", SStr, k, c.Concat(log, st.bytesOf(p)))
		return pair(tv(p[2]), c.nilErr())
	}
	libIface["net.Conn.Close"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		bump(st, "nclose", c.sock(l.recv))
		if st.Choose(2, "net close") == 1 {
			return tv(st.netErr("netclose"))
		}
		return c.nilErr()
	}
}

// sock identifies the socket behind an interface value.
func (c *Ctx) sock(v *Term) *Term {
	if v.op == OCtor && v.s == "other" {
		return c.otherID(v)
	}
	k := c.UF("sock", SInt, v)
	if c.freshRes[v] {
		c.addFact(k, c.Implies(c.Is("other", v), c.Eq(k, c.otherID(v))))
	}
	return k
}

// netErr is an error of the network layer: not nil, of no type of the repository.
func (st *State) netErr(what string) *Term {
	e := st.freshErr(what)
	st.Assume(st.c.Is("other", e))
	return e
}

var _ = types.Typ
