package main

import (
	"go/types"
	"strings"
)

// Models of the functions used to open a connection: URL parsing, strings,
// files, certificates and dialing.  What they compute is left uninterpreted
// (urlscheme(s) is the scheme of URL s, and so on); the contracts are stated
// over the same functions.

func init() {
	for k, s := range map[string]Sort{
		"urlok": SBool, "urlscheme": SStr, "urlhost": SStr, "urluser": SStr, "urlpass": SStr, "urlhasuser": SBool, "urlpassset": SBool, "urlquery": SStr,
		"queryof": SInt, "qget": SStr, "isnum": SBool, "num": SInt,
		"readable": SBool, "filedata": SStr, "keypairok": SBool, "keypair": SInt,
	} {
		specUFs[k] = s
	}
	for k, s := range map[string]Sort{
		"opened": SInt, "dialnet": SStr, "dialaddr": SStr, "dialtime": SInt, "dialtls": SBool, "dialskip": SBool, "dialca": SStr, "dialhasca": SBool, "dialncert": SInt, "dialcert": SInt, "pem": SStr,
	} {
		ghostMaps[k] = s
	}
	F := libFuncs
	result := func(l *libCall, i int) types.Type { return l.fn.Signature.Results().At(i).Type() }
	pointed := func(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }
	F["strings.ToLower"] = func(l *libCall) SV { return tv(l.st.lowerS(l.t(0)[0])) }
	F["strings.EqualFold"] = func(l *libCall) SV {
		return tv(l.c().Eq(l.st.lowerS(l.t(0)[0]), l.st.lowerS(l.t(1)[0])))
	}
	F["strings.HasPrefix"] = func(l *libCall) SV { return tv(l.st.hasPrefix(l.t(0)[0], l.t(1)[0])) }
	number := func(l *libCall) SV {
		st, c := l.st, l.c()
		s := l.t(0)[0]
		if !st.Branch(c.UF("isnum", SBool, s)) {
			return pair(tv(c.Fresh("notnumber", SInt)), tv(st.netErr("number")))
		}
		n := c.UF("num", SInt, s)
		lo, hi := intRange(64, true)
		st.Assume(c.And(c.Le(c.BigInt(lo), n), c.Le(n, c.BigInt(hi))))
		return pair(tv(n), c.nilErr())
	}
	F["strconv.Atoi"] = number
	F["strconv.ParseInt"] = func(l *libCall) SV {
		if b, ok := l.t(1)[0].intVal(); !ok || b != 10 {
			unsupported("strconv.ParseInt with base other than 10")
		}
		if b, ok := l.t(2)[0].intVal(); !ok || b != 64 && b != 0 {
			unsupported("strconv.ParseInt with size other than 64")
		}
		return number(l)
	}
	// ----- net/url
	F["net/url.Parse"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		s := l.t(0)[0]
		if !st.Branch(c.UF("urlok", SBool, s)) {
			return pair(tv(c.Zero), tv(st.netErr("url")))
		}
		ut := pointed(result(l, 0))
		r := st.newRef()
		st.wr(fName(ut, "Scheme"), SStr, r, c.UF("urlscheme", SStr, s))
		st.wr(fName(ut, "Host"), SStr, r, c.UF("urlhost", SStr, s))
		st.wr(fName(ut, "RawQuery"), SStr, r, c.UF("urlquery", SStr, s))
		user := c.Zero
		if st.Branch(c.UF("urlhasuser", SBool, s)) {
			user = st.newRef()
			st.wr("G:userinfo", SStr, user, s)
		}
		st.wr(fName(ut, "User"), SInt, r, user)
		return pair(tv(r), c.nilErr())
	}
	F["(*net/url.URL).Query"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		l.st.nn(l.t(0)[0], l)
		ut := pointed(l.fn.Signature.Recv().Type())
		return tv(c.UF("queryof", SInt, st.rd(fName(ut, "RawQuery"), SStr, l.t(0)[0])))
	}
	F["(net/url.Values).Get"] = func(l *libCall) SV {
		return tv(l.c().UF("qget", SStr, l.t(0)[0], l.t(1)[0]))
	}
	user := func(l *libCall) *Term {
		st, c := l.st, l.c()
		if st.decide(c.Eq(l.t(0)[0], c.Zero)) != -1 {
			unsupported("method of a possibly nil Userinfo")
		}
		return st.rd("G:userinfo", SStr, l.t(0)[0])
	}
	F["(*net/url.Userinfo).Username"] = func(l *libCall) SV { return tv(l.c().UF("urluser", SStr, user(l))) }
	F["(*net/url.Userinfo).Password"] = func(l *libCall) SV {
		c := l.c()
		u := user(l)
		return pair(tv(c.UF("urlpass", SStr, u)), tv(c.UF("urlpassset", SBool, u)))
	}
	// ----- files and certificates
	readFile := func(l *libCall) SV {
		st, c := l.st, l.c()
		s := l.t(0)[0]
		if !st.Branch(c.UF("readable", SBool, s)) {
			return pair(tv(c.Zero, c.Zero, c.Zero, c.Zero), tv(st.netErr("file")))
		}
		d := c.UF("filedata", SStr, s)
		st.Assume(c.Le(c.Len(d), c.BigInt(pow2(48))))
		return pair(tv(st.newBytes(d)...), c.nilErr())
	}
	F["io/ioutil.ReadFile"] = readFile
	F["os.ReadFile"] = readFile
	F["crypto/x509.NewCertPool"] = func(l *libCall) SV {
		r := l.st.newRef()
		l.st.wr("G:pem", SStr, r, l.c().Empty)
		return tv(r)
	}
	F["(*crypto/x509.CertPool).AppendCertsFromPEM"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		r := l.t(0)[0]
		st.nn(r, l)
		st.wr("G:pem", SStr, r, c.Concat(st.rd("G:pem", SStr, r), st.bytesOf(l.t(1))))
		return tv(c.Fresh("pemok", SBool))
	}
	F["crypto/tls.LoadX509KeyPair"] = func(l *libCall) SV {
		st, c := l.st, l.c()
		a, b := l.t(0)[0], l.t(1)[0]
		ct := result(l, 0)
		if !st.Branch(c.UF("keypairok", SBool, a, b)) {
			return pair(SV{t: st.zero(ct)}, tv(st.netErr("keypair")))
		}
		if len(leaves(ct)) != 1 {
			unsupported("tls.Certificate is not opaque")
		}
		return pair(tv(c.UF("keypair", SInt, a, b)), c.nilErr())
	}
	// ----- dialing
	dialed := func(l *libCall, network, addr, timeout, config *Term, ct types.Type) *Term {
		st, c := l.st, l.c()
		r := st.newRef()
		v := c.Ctor("other", r)
		k := c.sock(v)
		st.wr("G:opened", SInt, c.Zero, c.Add(st.rd("G:opened", SInt, c.Zero), c.Int(1)))
		st.wr("G:dialnet", SStr, k, network)
		st.wr("G:dialaddr", SStr, k, addr)
		st.wr("G:dialtime", SInt, k, timeout)
		st.wr("G:dialtls", SBool, k, c.Bool(config != nil))
		if config != nil && !c.isZero(config) {
			st.wr("G:dialskip", SBool, k, st.rd(fName(ct, "InsecureSkipVerify"), SBool, config))
			ca := st.rd(fName(ct, "RootCAs"), SInt, config)
			st.wr("G:dialhasca", SBool, k, c.Neq(ca, c.Zero))
			st.wr("G:dialca", SStr, k, c.Ite(c.Neq(ca, c.Zero), st.rd("G:pem", SStr, ca), c.Empty))
			certs := st.load(&Addr{ref: config, root: ct, typ: fieldType(ct, "Certificates"), path: "Certificates"})
			st.wr("G:dialncert", SInt, k, certs.t[2])
			et := fieldType(ct, "Certificates").Underlying().(*types.Slice).Elem()
			cert := st.elemLeaves(et, certs.t[0], certs.t[1])[0]
			st.wr("G:dialcert", SInt, k, c.Ite(c.Lt(c.Zero, certs.t[2]), cert, c.Zero))
		}
		// a new socket: nothing sent, nothing received
		for _, g := range []string{"nread", "nwrite", "nclose", "ack", "nf", "ri"} {
			st.wr("G:"+g, SInt, k, c.Zero)
		}
		for _, g := range []string{"rset", "wset", "tf", "srvf"} {
			st.wr("G:"+g, SBool, k, c.False)
		}
		st.wr("G:se", SInt, k, c.Int(-1))
		st.wr("G:sp", SInt, k, c.Int(1))
		st.wr("G:re", SInt, k, c.Int(-1))
		st.wr("G:rp", SInt, k, c.Int(1))
		st.wr("G:wlog", SStr, k, c.Empty)
		st.wr("G:rlog", SStr, k, c.Empty)
		none := c.Fresh("sent", SInt)
		st.Assume(c.Eq(c.UF("nsent", SInt, none), c.Zero))
		st.wr("G:sent", SInt, k, none)
		return r
	}
	fail := func(l *libCall, what string) SV {
		return pair(SV{t: l.st.zero(result(l, 0))}, tv(l.st.netErr(what)))
	}
	field := func(l *libCall, ref *Term, t types.Type, name string) *Term {
		l.st.nn(ref, l)
		return l.st.rd(fName(t, name), SInt, ref)
	}
	plain := func(l *libCall, network, addr, timeout *Term) SV {
		if l.st.Choose(2, "dial") == 1 {
			return fail(l, "dial")
		}
		r := dialed(l, network, addr, timeout, nil, nil)
		return pair(tv(l.c().Ctor("other", r)), l.c().nilErr())
	}
	F["net.DialTimeout"] = func(l *libCall) SV { return plain(l, l.t(0)[0], l.t(1)[0], l.t(2)[0]) }
	F["net.Dial"] = func(l *libCall) SV { return plain(l, l.t(0)[0], l.t(1)[0], l.c().Zero) }
	F["(*net.Dialer).Dial"] = func(l *libCall) SV {
		return plain(l, l.t(1)[0], l.t(2)[0], field(l, l.t(0)[0], pointed(l.fn.Signature.Recv().Type()), "Timeout"))
	}
	secure := func(l *libCall, network, addr, timeout, config *Term, ct types.Type) SV {
		if l.st.Choose(2, "dial") == 1 {
			return fail(l, "dial")
		}
		return pair(tv(dialed(l, network, addr, timeout, config, ct)), l.c().nilErr())
	}
	F["crypto/tls.DialWithDialer"] = func(l *libCall) SV {
		ps := l.fn.Signature.Params()
		return secure(l, l.t(1)[0], l.t(2)[0], field(l, l.t(0)[0], pointed(ps.At(0).Type()), "Timeout"), l.t(3)[0], pointed(ps.At(3).Type()))
	}
	F["crypto/tls.Dial"] = func(l *libCall) SV {
		return secure(l, l.t(0)[0], l.t(1)[0], l.c().Zero, l.t(2)[0], pointed(l.fn.Signature.Params().At(2).Type()))
	}
}

func fieldType(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	panic(toolErr{"no field " + name})
}

func (st *State) lowerS(s *Term) *Term {
	if s.op == OLit {
		return st.c.Lit(strings.ToLower(s.s))
	}
	return st.c.UF("lower", SStr, s)
}

func (st *State) hasPrefix(s, p *Term) *Term {
	c := st.c
	n := c.Len(p)
	return c.And(c.Le(n, c.Len(s)), c.Eq(c.SubS(s, c.Zero, n), p))
}
