package main

// Contract files and the specification expression evaluator.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	kind  string
	tags  []string
	label string
	expr  ast.Expr
	lhs   ast.Expr
	text  string
	names []string
	line  int
}

// Contract of one function (in one family).
type Contract struct {
	Fn      string // key of the function
	Fam     string
	File    string
	params  []string
	results []string
	ghosts  [][2]string
	cls     []*clause
	alloc   *clause
	tags    []string // default tags
	panics  []string
	assumed bool // not verified here (reason in note)
	note    string
	locals  []string // extra families whose contracts are used
	inline  map[string]bool
}

func (c *Contract) ID() string {
	if c.Fam == "" {
		return c.Fn
	}
	return c.Fn + "#" + c.Fam
}

func (c *Contract) all(kind string) []*clause {
	var out []*clause
	for _, x := range c.cls {
		if x.kind == kind {
			out = append(out, x)
		}
	}
	return out
}

type Specs struct {
	con   map[string]*Contract
	order []string
	defs  map[string]*specDef
	rel   map[string][]string // properties whose clauses the proof of another rests on
}

// covers: an obligation with these tags counts for property p.
func (sp *Specs) covers(tags []string, p string) bool {
	if hasTag(tags, p) {
		return true
	}
	for _, q := range sp.rel[p] {
		if hasTag(tags, q) {
			return true
		}
	}
	return false
}

func (sp *Specs) concerns(con *Contract, p string) bool {
	if con.concerns(p) {
		return true
	}
	for _, q := range sp.rel[p] {
		if con.concerns(q) {
			return true
		}
	}
	return false
}

type specDef struct {
	params []string
	expr   ast.Expr
}

var headRE = regexp.MustCompile(`^func\s+(\S+?)(?:#(\w+))?\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)

func splitList(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

var clauseKinds = map[string]bool{"requires": true, "ensures": true, "modifies": true, "split": true, "decreases": true, "ghost": true, "match": true, "alloc": true, "fresh": true, "sets": true, "allocbound": true, "panics": true, "props": true, "assumed": true, "invariant": true, "use": true, "inline": true, "havoc": true, "let": true, "assume": true, "where": true, "cases": true, "lemma": true, "model": true, "plain": true, "also": true}

func parseExpr(s string, file string, line int) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(toolErr{fmt.Sprintf("%s:%d: %v in %q", file, line, err, s)})
	}
	return e
}

func LoadSpecs(dir string) *Specs {
	sp := &Specs{con: map[string]*Contract{}, defs: map[string]*specDef{}, rel: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(toolErr{err.Error()})
		}
		sp.parse(filepath.Base(f), string(b))
	}
	return sp
}

func (sp *Specs) parse(file, text string) {
	type rawLine struct {
		s string
		n int
	}
	var raw []rawLine
	for i, l := range strings.Split(text, "\n") {
		if k := strings.Index(l, " #"); k >= 0 {
			l = l[:k]
		}
		if strings.HasPrefix(l, "#") {
			continue
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.Fields(t)[0]
		if strings.HasPrefix(l, "func ") || strings.HasPrefix(l, "using ") || strings.HasPrefix(l, "relies ") || strings.HasPrefix(l, "def ") || clauseKinds[w] {
			raw = append(raw, rawLine{t, i + 1})
		} else if len(raw) > 0 {
			raw[len(raw)-1].s += " " + t
		} else {
			panic(toolErr{fmt.Sprintf("%s:%d: unexpected text", file, i+1)})
		}
	}
	var cur *Contract
	var using []string
	for _, r := range raw {
		if strings.HasPrefix(r.s, "using ") {
			using = strings.Fields(r.s)[1:]
			continue
		}
		if strings.HasPrefix(r.s, "relies ") {
			// relies P on Q R ...
			w := strings.Fields(r.s)
			if len(w) < 4 || w[2] != "on" {
				panic(toolErr{fmt.Sprintf("%s:%d: bad relies", file, r.n)})
			}
			sp.rel[w[1]] = append(sp.rel[w[1]], w[3:]...)
			cur = nil
			continue
		}
		if strings.HasPrefix(r.s, "def ") {
			// def name(params) = expr
			k := strings.Index(r.s, "=")
			h := strings.TrimSpace(r.s[4:k])
			p := strings.Index(h, "(")
			sp.defs[h[:p]] = &specDef{params: splitList(strings.TrimSuffix(h[p+1:], ")")), expr: parseExpr(r.s[k+1:], file, r.n)}
			cur = nil
			continue
		}
		if strings.HasPrefix(r.s, "func ") {
			m := headRE.FindStringSubmatch(r.s)
			if m == nil {
				// receiver in the name contains parentheses
				m = splitHead(r.s)
			}
			if m == nil {
				panic(toolErr{fmt.Sprintf("%s:%d: bad function header %q", file, r.n, r.s)})
			}
			cur = &Contract{Fn: m[1], Fam: m[2], params: splitList(m[3]), results: splitList(m[4]), File: file, inline: map[string]bool{}, locals: append([]string(nil), using...)}
			if sp.con[cur.ID()] != nil {
				panic(toolErr{fmt.Sprintf("%s:%d: duplicate contract %s", file, r.n, cur.ID())})
			}
			sp.con[cur.ID()] = cur
			sp.order = append(sp.order, cur.ID())
			continue
		}
		if cur == nil {
			panic(toolErr{fmt.Sprintf("%s:%d: clause outside function", file, r.n)})
		}
		w := strings.Fields(r.s)[0]
		rest := strings.TrimSpace(strings.TrimPrefix(r.s, w))
		cl := &clause{kind: w, line: r.n, text: rest}
		if strings.HasPrefix(rest, "[") {
			k := strings.Index(rest, "]")
			cl.tags = splitList(rest[1:k])
			rest = strings.TrimSpace(rest[k+1:])
		}
		if strings.HasPrefix(rest, "\"") {
			k := strings.Index(rest[1:], "\"")
			cl.label = rest[1 : k+1]
			rest = strings.TrimSpace(rest[k+2:])
			rest = strings.TrimSpace(strings.TrimPrefix(rest, ":"))
		}
		switch w {
		case "props":
			cur.tags = splitList(strings.ReplaceAll(rest, " ", ","))
			continue
		case "panics":
			cur.panics = cl.tags
			continue
		case "assumed":
			cur.assumed = true
			cur.note = cl.label + rest
			continue
		case "ghost":
			if k := strings.Index(rest, ":="); k >= 0 { // with the value callers give it
				f := strings.Fields(rest[:k])
				cur.ghosts = append(cur.ghosts, [2]string{f[0], f[1]})
				cl.names, cl.expr = f[:1], parseExpr(rest[k+2:], file, r.n)
				cur.cls = append(cur.cls, cl)
				continue
			}
			for _, g := range splitList(rest) {
				f := strings.Fields(g)
				cur.ghosts = append(cur.ghosts, [2]string{f[0], f[1]})
			}
			continue
		case "use":
			cur.locals = append(cur.locals, strings.Fields(rest)...)
			continue
		case "inline":
			for _, f := range strings.Fields(rest) {
				cur.inline[f] = true
			}
			continue
		case "match", "let", "sets":
			k := strings.Index(rest, ":=")
			if k < 0 {
				panic(toolErr{fmt.Sprintf("%s:%d: %s needs :=", file, r.n, w)})
			}
			if w == "sets" {
				cl.lhs = parseExpr(rest[:k], file, r.n)
			} else {
				cl.names = splitList(rest[:k])
			}
			cl.expr = parseExpr(rest[k+2:], file, r.n)
		case "modifies":
			cl.expr = parseExpr("_m("+rest+")", file, r.n)
		case "alloc", "havoc", "fresh", "plain", "also":
			cl.names = splitList(rest)
		default:
			cl.expr = parseExpr(rest, file, r.n)
		}
		if w == "allocbound" {
			cur.alloc = cl
			continue
		}
		cur.cls = append(cur.cls, cl)
	}
}

// splitHead parses "func pkg.(Recv).Name#fam(params) (results)".
func splitHead(s string) []string {
	s = strings.TrimSpace(strings.TrimPrefix(s, "func "))
	res := ""
	if strings.HasSuffix(s, ")") {
		// find matching groups from the right
		grp := func(x string) (string, string) {
			k := strings.LastIndex(x, "(")
			return strings.TrimSpace(x[:k]), strings.TrimSuffix(x[k+1:], ")")
		}
		head, last := grp(s)
		if strings.HasSuffix(head, ")") {
			res = last
			head, last = grp(head)
		}
		name, fam := head, ""
		if k := strings.Index(head, "#"); k >= 0 {
			name, fam = head[:k], head[k+1:]
		}
		return []string{"", name, fam, last, res}
	}
	return nil
}

func (u *Unit) allTags() []string { return u.Con.tags }

func (u *Unit) loopTemplates(st *State, inv *loopInv) []*Term { return nil }

// contractFor finds the contract used for calls of a function in this unit.
func (u *Unit) contractFor(short string, st *State, args []SV) *Contract {
	if u.Con != nil && u.Con.inline[short] {
		return nil
	}
	fams := []string{}
	if u.Con != nil {
		if u.Con.Fam != "" {
			fams = append(fams, u.Con.Fam)
		}
		fams = append(fams, u.Con.locals...)
	}
	for _, f := range fams {
		if con := u.Specs.con[short+"#"+f]; con != nil {
			return con
		}
	}
	return u.Specs.con[short]
}

// ---------- evaluation ----------

type EV struct {
	sv   SV
	typ  types.Type
	t    *Term
	nil_ bool
}

type Env struct {
	st   *State
	vars map[string]EV
	old  map[string]*Term // heap for old(...)
	con  *Contract

	start map[string]*Term // heap in which the loop was entered

	caller bool // the contract is applied, not proved
}

func (en *Env) fail(f string, a ...interface{}) {
	panic(toolErr{fmt.Sprintf("contract %s: ", en.con.ID()) + fmt.Sprintf(f, a...)})
}

func (en *Env) term(e ast.Expr) *Term { return en.asTerm(en.eval(e)) }

func (en *Env) asTerm(v EV) *Term {
	if v.t != nil {
		return v.t
	}
	if v.nil_ {
		return en.st.c.Nil()
	}
	ls := en.st.leavesOf(v.sv, v.typ)
	if len(ls) == 0 {
		en.fail("value without leaves")
	}
	return ls[0]
}

func (en *Env) leaves(v EV) []*Term {
	if v.t != nil {
		return []*Term{v.t}
	}
	return en.st.leavesOf(v.sv, v.typ)
}

func (en *Env) boolT(e ast.Expr) *Term {
	t := en.term(e)
	if t.sort != SBool {
		en.fail("not a formula: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func T(t *Term) EV { return EV{t: t} }

func (en *Env) eval(e ast.Expr) EV {
	st, c := en.st, en.st.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return en.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(e.Value, 0)
			if !ok {
				en.fail("bad int %s", e.Value)
			}
			return T(c.BigInt(n))
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				en.fail("bad string %s", e.Value)
			}
			return T(c.Lit(s))
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return T(c.True)
		case "false":
			return T(c.False)
		case "nil":
			return EV{nil_: true}
		case "empty":
			return T(c.Empty)
		case "ErrBadConn":
			return T(c.errBadConn())
		case "EOF":
			return T(c.errEOF())
		}
		if v, ok := en.vars[e.Name]; ok {
			return v
		}
		// package-level variable of the repository
		if v, ok := en.global(e.Name); ok {
			return v
		}
		en.fail("unknown name %s", e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return T(c.Not(en.boolT(e.X)))
		case token.SUB:
			return T(c.ScaleI(en.term(e.X), -1))
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return T(c.And(en.boolT(e.X), en.boolT(e.Y)))
		case token.LOR:
			return T(c.Or(en.boolT(e.X), en.boolT(e.Y)))
		case token.EQL:
			return T(en.eq(en.eval(e.X), en.eval(e.Y), e))
		case token.NEQ:
			return T(c.Not(en.eq(en.eval(e.X), en.eval(e.Y), e)))
		}
		a, b := en.term(e.X), en.term(e.Y)
		switch e.Op {
		case token.LSS:
			return T(c.Lt(a, b))
		case token.LEQ:
			return T(c.Le(a, b))
		case token.GTR:
			return T(c.Lt(b, a))
		case token.GEQ:
			return T(c.Le(b, a))
		case token.ADD:
			if a.sort == SStr {
				return T(c.Concat(a, b))
			}
			return T(c.Add(a, b))
		case token.SUB:
			return T(c.Sub(a, b))
		case token.MUL:
			return T(c.Mul(a, b))
		}
	case *ast.SelectorExpr:
		return en.field(en.eval(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		x := en.eval(e.X)
		i := en.term(e.Index)
		if x.t != nil {
			if strings.HasPrefix(string(x.t.sort), "(Array") {
				return T(c.Select(x.t, i))
			}
			if x.t.sort == SStr {
				return T(st.atByte(x.t, i))
			}
			en.fail("cannot index %s", exprStr(e.X))
		}
		switch u := x.typ.Underlying().(type) {
		case *types.Slice:
			ls := en.leaves(x)
			return EV{sv: SV{t: st.elemLeaves(u.Elem(), ls[0], c.Add(ls[1], i))}, typ: u.Elem()}
		case *types.Map:
			return T(c.Select(st.mapVal(en.leaves(x)[0]), i))
		}
	case *ast.CallExpr:
		return en.callE(e)
	case *ast.StarExpr:
		x := en.eval(e.X)
		el := pointee(x.typ)
		return EV{sv: st.load(&Addr{ref: en.leaves(x)[0], root: el, typ: el}), typ: el}
	}
	en.fail("unsupported expression %s", exprStr(e))
	return EV{}
}

func (en *Env) global(name string) (EV, bool) {
	for _, path := range en.st.c.P.order {
		if g, ok := en.st.c.P.spkg[path].Members[name].(*ssa.Global); ok {
			t := pointee(g.Type())
			return EV{sv: en.st.load(&Addr{glob: g, root: t, typ: t}), typ: t}, true
		}
		if k, ok := en.st.c.P.spkg[path].Members[name].(*ssa.NamedConst); ok {
			return EV{sv: en.st.val(nil, k.Value), typ: k.Type()}, true
		}
	}
	return EV{}, false
}

func (en *Env) field(x EV, name string) EV {
	st := en.st
	if x.typ == nil {
		en.fail("field %s of a spec term", name)
	}
	if pt, ok := x.typ.Underlying().(*types.Pointer); ok {
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			en.fail("field %s of %s", name, x.typ)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				a := &Addr{ref: en.leaves(x)[0], root: pt.Elem(), path: name, typ: s.Field(i).Type()}
				if x.sv.addr != nil {
					na := *x.sv.addr
					na.path = joinPath(na.path, name)
					na.typ = s.Field(i).Type()
					a = &na
				}
				return EV{sv: st.load(a), typ: s.Field(i).Type()}
			}
		}
		// embedded struct
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
					return en.field(EV{sv: st.load(&Addr{ref: en.leaves(x)[0], root: pt.Elem(), path: s.Field(i).Name(), typ: s.Field(i).Type()}), typ: s.Field(i).Type()}, name)
				}
			}
		}
	}
	if s, ok := x.typ.Underlying().(*types.Struct); ok {
		ls := en.leaves(x)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				lo, hi := fieldRange(x.typ, i)
				return EV{sv: SV{t: ls[lo:hi]}, typ: s.Field(i).Type()}
			}
		}
	}
	en.fail("no field %s in %s", name, x.typ)
	return EV{}
}

func (en *Env) eq(a, b EV, at ast.Expr) *Term {
	c := en.st.c
	if a.nil_ && b.nil_ {
		return c.True
	}
	if a.nil_ {
		a, b = b, a
	}
	if b.nil_ {
		t := en.asTerm(a)
		if t.sort == SAny {
			return c.Is("nil", t)
		}
		return c.Eq(t, c.Zero)
	}
	la, lb := en.leaves(a), en.leaves(b)
	if len(la) == 1 && len(lb) == 1 && la[0].sort == SAny && lb[0].sort != SAny && b.typ != nil {
		return c.Eq(la[0], en.st.makeIface(b.sv, b.typ))
	}
	if len(la) != len(lb) {
		en.fail("comparison of different shapes: %s", exprStr(at))
	}
	r := c.True
	for i := range la {
		if la[i].sort != lb[i].sort {
			en.fail("comparison of different sorts %s %s: %s", la[i].sort, lb[i].sort, exprStr(at))
		}
		r = c.And(r, c.Eq(la[i], lb[i]))
	}
	return r
}

// anyOf views a value as an interface value.
func (en *Env) anyOf(v EV) *Term {
	if v.nil_ {
		return en.st.c.Nil()
	}
	if v.t != nil {
		if v.t.sort == SStr {
			return en.st.c.Ctor("string", v.t)
		}
		return v.t
	}
	return en.st.makeIface(v.sv, v.typ)
}

func (en *Env) strLit(e ast.Expr) string {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		en.fail("string literal expected: %s", exprStr(e))
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

// inOld evaluates f in the old heap.
func (en *Env) inOld(f func() EV) EV {
	if en.old == nil {
		en.fail("old() not available here")
	}
	cur := en.st.heap
	en.st.heap = en.old
	defer func() { en.st.heap = cur }()
	return f()
}

// ghostMaps: ghost state kept per object; sort of the value.
var ghostMaps = map[string]Sort{
	"pos": SInt, "starved": SBool, "log": SStr, "werr": SAny, "str": SStr,
}

// key of a ghost map for a value: object identity.
func (en *Env) ghostKey(v EV) *Term {
	t := en.asTerm(v)
	if t.sort == SAny {
		if n := en.st.ctorOf(t); n != "" && n != "other" {
			if k := en.st.c.unpack(n, t); len(k) > 0 && k[0].sort == SInt {
				return k[0]
			}
		}
		return en.st.c.otherID(t)
	}
	return t
}

func (en *Env) resolveType(name string) string {
	c := en.st.c
	if _, ok := c.ctors[name]; ok {
		return name
	}
	en.fail("type %s is not known as a dynamic type", name)
	return ""
}

func (en *Env) callE(e *ast.CallExpr) EV {
	st, c := en.st, en.st.c
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		en.fail("bad call %s", exprStr(e))
	}
	A := e.Args
	t := func(i int) *Term { return en.term(A[i]) }
	switch id.Name {
	case "imp":
		a := st.simp(en.boolT(A[0]))
		if a.isFalse() {
			return T(c.True)
		}
		return T(c.Implies(a, en.boolT(A[1])))
	case "iff":
		return T(c.Iff(en.boolT(A[0]), en.boolT(A[1])))
	case "ite":
		p := st.simp(en.boolT(A[0]))
		if p.isTrue() {
			return en.eval(A[1])
		}
		if p.isFalse() {
			return en.eval(A[2])
		}
		return T(c.Ite(p, t(1), t(2)))
	case "when": // path split inside a specification
		if st.Branch(en.boolT(A[0])) {
			return en.eval(A[1])
		}
		if len(A) > 2 {
			return en.eval(A[2])
		}
		return T(c.True)
	case "start": // at the entry of the loop
		if en.start == nil {
			en.fail("start() not available here")
		}
		sub := *en
		sub.old = en.start
		return sub.inOld(func() EV {
			v := sub.eval(A[0])
			if v.t == nil && v.sv.t == nil {
				return EV{sv: SV{t: sub.leaves(v)}, typ: v.typ}
			}
			return v
		})
	case "old":
		return en.inOld(func() EV {
			v := en.eval(A[0])
			if v.t == nil && v.sv.t == nil {
				return EV{sv: SV{t: en.leaves(v)}, typ: v.typ}
			}
			return v
		})
	case "len":
		v := en.eval(A[0])
		if v.t != nil {
			if v.t.sort == SStr {
				return T(c.Len(v.t))
			}
			if v.t.op == OList {
				return T(v.t.args[2])
			}
			en.fail("len of %s", exprStr(A[0]))
		}
		ls := en.leaves(v)
		switch v.typ.Underlying().(type) {
		case *types.Slice:
			return T(ls[2])
		case *types.Basic:
			return T(c.Len(ls[0]))
		case *types.Map:
			return T(st.mapLen(ls[0]))
		case *types.Chan:
			return T(st.rd("G:chlen", SInt, ls[0]))
		}
	case "str": // content of a buffer / what was written to a writer
		v := en.eval(A[0])
		x := en.asTerm(v)
		if x.sort == SAny {
			switch st.ctorSplit(x, []string{"*bytes.Buffer", "other"}) {
			case "*bytes.Buffer":
				return T(st.normT(st.bufGet(c.unpack("*bytes.Buffer", x)[0])))
			case "other":
				return T(st.normT(st.rd("G:log", SStr, c.otherID(x))))
			}
			en.fail("str of a writer of unknown type")
		}
		return T(st.normT(st.bufGet(x)))
	case "input": // bytes a reader has still to deliver
		x := t(0)
		switch st.ctorSplit(x, []string{"*bytes.Buffer", "other"}) {
		case "*bytes.Buffer":
			return T(st.normT(st.bufGet(c.unpack("*bytes.Buffer", x)[0])))
		case "other":
			in, ps := st.readerState(c.otherID(x))
			return T(st.normT(c.SubS(in, ps, c.Len(in))))
		}
		en.fail("input of a reader of unknown type")
	case "failed": // the (abstract) reader has reported an error
		x := t(0)
		switch st.ctorSplit(x, []string{"*bytes.Buffer", "other"}) {
		case "*bytes.Buffer":
			return T(c.False)
		case "other":
			return T(st.rd("G:starved", SBool, c.otherID(x)))
		}
		en.fail("failed of a reader of unknown type")
	case "ended": // the reader has nothing more to deliver
		x := t(0)
		switch st.ctorSplit(x, []string{"*bytes.Buffer", "other"}) {
		case "*bytes.Buffer":
			return T(c.Eq(c.Len(st.bufGet(c.unpack("*bytes.Buffer", x)[0])), c.Zero))
		case "other":
			return T(st.rd("G:starved", SBool, c.otherID(x)))
		}
		en.fail("ended of a reader of unknown type")
	case "inp":
		return T(c.UF("inp", SStr, c.otherID(t(0))))
	case "new": // an object that did not exist before the call
		if en.caller {
			return T(c.region(t(0)))
		}
		return T(c.Lt(t(0), c.Zero))
	case "isbuf":
		return T(c.Is("*bytes.Buffer", t(0)))
	case "bytes":
		return T(st.bytesOf(en.leaves(en.eval(A[0]))))
	case "pack":
		return T(c.Pack(en.anyOf(en.eval(A[0]))))
	case "packint":
		return T(c.PackInt(t(0)))
	case "hdr":
		k, _ := t(0).intVal()
		return T(c.PackHdr(k, t(1)))
	case "enc":
		v := en.anyOf(en.eval(A[0]))
		if x := st.unfoldEnc(v); x != nil && v.op == OCtor {
			return T(x)
		}
		return T(c.Enc(v))
	case "dec":
		return T(c.Dec(en.anyOf(en.eval(A[0]))))
	case "same":
		return T(c.Same(en.anyOf(en.eval(A[0])), en.anyOf(en.eval(A[1]))))
	case "inner":
		return T(st.Inner(en.anyOf(en.eval(A[0]))))
	case "unframe":
		x := st.normT(t(0))
		if r := st.unframe(x); r != nil {
			return T(r)
		}
		return T(c.UF("unframe", SStr, x))
	case "wf":
		return T(c.UF("wf", SBool, st.normT(t(0))))
	case "framing": // lemma: chunk framing is uniquely decodable (see DESIGN.md)
		return T(st.framing(st.normT(t(0)), t(1)))
	case "sub":
		return T(st.normT(c.SubS(t(0), t(1), t(2))))
	case "suffix": // a is a suffix of b: b == p ++ a
		a, b := st.normT(t(0)), st.normT(t(1))
		n := c.Sub(c.Len(b), c.Len(a))
		return T(c.And(c.Le(c.Zero, n), c.Eq(a, c.SubS(b, n, c.Len(b)))))
	case "unit":
		return T(c.Unit(t(0)))
	case "be":
		k, _ := t(1).intVal()
		return T(c.BytesBE(t(0), int(k)))
	case "is":
		return T(c.Is(en.resolveType(en.strLit(A[1])), en.asTerm(en.eval(A[0]))))
	case "as":
		n := en.resolveType(en.strLit(A[1]))
		return EV{sv: SV{t: c.unpack(n, t(0))}, typ: c.ctorType(n)}
	case "mk": // mk("T", leaves...)
		n := en.resolveType(en.strLit(A[0]))
		var ls []*Term
		for _, a := range A[1:] {
			ls = append(ls, en.leaves(en.eval(a))...)
		}
		return T(c.Ctor(n, ls...))
	case "any":
		return T(en.anyOf(en.eval(A[0])))
	case "forall":
		v := A[0].(*ast.Ident).Name
		lo, hi := t(1), t(2)
		saved, had := en.vars[v]
		q := c.ForallLoHi(lo, hi, func(j *Term) *Term {
			en.vars[v] = T(j)
			return en.boolT(A[3])
		})
		delete(en.vars, v)
		if had {
			en.vars[v] = saved
		}
		return T(q)
	case "has":
		m := en.leaves(en.eval(A[0]))[0]
		return T(c.And(c.Neq(m, c.Zero), c.Select(st.mapHas(m), t(1))))
	case "get":
		return T(c.Select(st.mapVal(en.leaves(en.eval(A[0]))[0]), t(1)))
	case "sock":
		return T(c.sock(t(0)))
	case "lower":
		return T(st.lowerS(t(0)))
	case "hasprefix":
		return T(st.hasPrefix(t(0), t(1)))
	case "keypos": // the position of a key in the enumeration of a map
		has, ln := st.mapHas(en.leaves(en.eval(A[0]))[0]), st.mapLen(en.leaves(en.eval(A[0]))[0])
		k := t(1)
		i := c.UF("ordidx", SInt, has, k)
		st.Assume(c.Eq(c.UF("ordn", SInt, has), ln))
		st.Assume(c.Implies(c.Select(has, k), c.And(c.Le(c.Zero, i), c.Lt(i, ln), c.Eq(c.UF("ord", SStr, has, i), k))))
		return T(i)
	case "list": // spec list view of a slice value
		v := en.eval(A[0])
		return T(st.lift(v.typ, en.leaves(v)))
	case "ref":
		return T(en.leaves(en.eval(A[0]))[0])
	case "writable":
		return T(c.True)
	}
	if d, ok := st.c.U.Specs.defs[id.Name]; ok {
		if len(d.params) != len(A) {
			en.fail("%s takes %d arguments", id.Name, len(d.params))
		}
		nv := map[string]EV{}
		for i, p := range d.params {
			nv[p] = en.eval(A[i])
		}
		sub := &Env{st: st, vars: nv, old: en.old, start: en.start, con: en.con}
		return sub.eval(d.expr)
	}
	if s, ok := ghostMaps[id.Name]; ok {
		return T(st.rd("G:"+id.Name, s, en.ghostKey(en.eval(A[0]))))
	}
	if uf, ok := specUFs[id.Name]; ok {
		var as []*Term
		for i := range A {
			v := en.eval(A[i])
			as = append(as, en.leaves(v)[0])
		}
		return T(c.UF(id.Name, uf, as...))
	}
	en.fail("unknown function %s", id.Name)
	return EV{}
}

var specUFs = map[string]Sort{}

// loc is a heap location named by a modifies clause.
type loc struct {
	name string
	sort Sort
	ref  *Term
	leaf *Leaf
	win  []*Term // window(b): only the bytes of slice b change
}

func (en *Env) locs(e ast.Expr) []loc {
	st, c := en.st, en.st.c
	switch e := e.(type) {
	case *ast.CallExpr:
		id := e.Fun.(*ast.Ident).Name
		switch id {
		case "_m":
			var out []loc
			for _, a := range e.Args {
				out = append(out, en.locs(a)...)
			}
			return out
		case "when":
			if st.Branch(en.boolT(e.Args[0])) {
				return en.locs(e.Args[1])
			}
			if len(e.Args) > 2 {
				return en.locs(e.Args[2])
			}
			return nil
		case "nothing":
			return nil
		case "str":
			x := en.term(e.Args[0])
			if x.sort == SAny {
				switch st.ctorSplit(x, []string{"*bytes.Buffer", "other"}) {
				case "*bytes.Buffer":
					return []loc{{name: "G:str", sort: SStr, ref: c.unpack("*bytes.Buffer", x)[0]}}
				case "other":
					k := c.otherID(x)
					return []loc{{name: "G:log", sort: SStr, ref: k}, {name: "G:werr", sort: SAny, ref: k}}
				}
				en.fail("modifies str of unknown writer")
			}
			return []loc{{name: "G:str", sort: SStr, ref: x}}
		case "input":
			x := en.term(e.Args[0])
			switch st.ctorSplit(x, []string{"*bytes.Buffer", "other"}) {
			case "*bytes.Buffer":
				return []loc{{name: "G:str", sort: SStr, ref: c.unpack("*bytes.Buffer", x)[0]}}
			case "other":
				k := c.otherID(x)
				return []loc{{name: "G:pos", sort: SInt, ref: k}, {name: "G:starved", sort: SBool, ref: k}}
			}
			en.fail("modifies input of unknown reader")
		case "bytes":
			v := en.leaves(en.eval(e.Args[0]))
			return []loc{{name: "B", sort: SStr, ref: v[0]}}
		case "window":
			v := en.leaves(en.eval(e.Args[0]))
			return []loc{{name: "B", sort: SStr, ref: v[0], win: v}}
		case "elems":
			v := en.eval(e.Args[0])
			el := v.typ.Underlying().(*types.Slice).Elem()
			var out []loc
			for _, l := range leaves(el) {
				out = append(out, loc{name: eName(el, l.path), sort: arrSort(SInt, l.sort()), ref: en.leaves(v)[0]})
			}
			return out
		case "mapc":
			r := en.leaves(en.eval(e.Args[0]))[0]
			return []loc{{name: "M:has", sort: arrSort(SStr, SBool), ref: r}, {name: "M:val", sort: arrSort(SStr, SAny), ref: r}, {name: "M:len", sort: SInt, ref: r}}
		case "all":
			v := en.eval(e.Args[0])
			el := pointee(v.typ)
			var out []loc
			for _, l := range leaves(el) {
				l := l
				out = append(out, loc{name: fName(el, l.path), sort: l.sort(), ref: en.leaves(v)[0], leaf: &l})
			}
			return out
		case "bolt", "set":
			// user defined set of locations: a def whose body is _m(...)
		}
		if d, ok := st.c.U.Specs.defs[id]; ok {
			nv := map[string]EV{}
			for i, p := range d.params {
				nv[p] = en.eval(e.Args[i])
			}
			sub := &Env{st: st, vars: nv, old: en.old, start: en.start, con: en.con}
			return sub.locs(d.expr)
		}
		if s, ok := ghostMaps[id]; ok {
			return []loc{{name: "G:" + id, sort: s, ref: en.ghostKey(en.eval(e.Args[0]))}}
		}
	case *ast.SelectorExpr:
		x := en.eval(e.X)
		pt, ok := x.typ.Underlying().(*types.Pointer)
		if !ok {
			en.fail("modifies field of non-pointer %s", exprStr(e))
		}
		s := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == e.Sel.Name {
				var out []loc
				for _, l := range leaves(s.Field(i).Type()) {
					l := l
					out = append(out, loc{name: fName(pt.Elem(), joinPath(e.Sel.Name, l.path)), sort: l.sort(), ref: en.leaves(x)[0], leaf: &l})
				}
				return out
			}
		}
	}
	en.fail("unsupported modifies item %s", exprStr(e))
	return nil
}

func (en *Env) bindParams(con *Contract, fn *ssa.Function, args []SV) {
	if len(con.params) != len(fn.Params) {
		en.fail("has %d parameters, the function has %d", len(con.params), len(fn.Params))
	}
	for i, p := range fn.Params {
		en.vars[con.params[i]] = EV{sv: args[i], typ: p.Type()}
	}
}

func (en *Env) bindResults(con *Contract, fn *ssa.Function, res SV) {
	rs := fn.Signature.Results()
	if len(con.results) != rs.Len() {
		en.fail("has %d results, the function has %d", len(con.results), rs.Len())
	}
	for i := 0; i < rs.Len(); i++ {
		v := res
		if rs.Len() > 1 {
			v = res.tup[i]
		}
		en.vars[con.results[i]] = EV{sv: v, typ: rs.At(i).Type()}
	}
}

func (cl *clause) tagsOr(u *Unit, con *Contract) []string {
	if cl.tags != nil {
		return cl.tags
	}
	if con != nil && len(con.tags) > 0 {
		return con.tags
	}
	return u.allTags()
}

// lets binds let clauses.
func (en *Env) lets(con *Contract) {
	for _, cl := range con.all("let") {
		v := en.eval(cl.expr)
		if v.t == nil && !v.nil_ {
			v = EV{sv: SV{t: en.leaves(v)}, typ: v.typ}
		}
		en.vars[cl.names[0]] = v
	}
}

// applyContract replaces a call by the callee's contract.
var dbgVac = os.Getenv("GOVC_VAC") != ""

func (st *State) dbgVacuous(where string) {
	if !dbgVac || st.quiet != 0 {
		return
	}
	r := st.c.smt.Check(st.pc, st.c.True, 3000, false)
	fmt.Println("vac", where, r == rUnsat)
	if r == rUnsat {
		dbgVac = false
		st.c.smt.dump(st.pc, st.c.True, "/tmp/vac.smt2")
		for _, p := range st.pc {
			fmt.Println("   ", st.c.Str(p))
		}
	}
}

func (st *State) applyContract(fr *Frame, con *Contract, fn *ssa.Function, args []SV, pos token.Pos) SV {
	c, u := st.c, st.c.U
	u.Used[con.ID()] = true
	en := &Env{st: st, vars: map[string]EV{}, con: con}
	en.bindParams(con, fn, args)
	ps := c.P.pos(pos)
	matched := true
	// ghost arguments: the caller's ghost of the same name, or the default
	for _, cl := range con.all("ghost") {
		en.vars[cl.names[0]] = T(en.term(cl.expr))
	}
	for _, g := range con.ghosts {
		for _, h := range u.Con.ghosts {
			if g == h {
				en.vars[g[0]] = T(c.Var("ghost:"+g[0], Sort(g[1])))
			}
		}
	}
	for _, cl := range con.all("match") {
		if !st.matchGhost(en, cl) {
			matched = false
		}
	}
	if !matched {
		if st.quiet == 0 {
			st.Prove(c.False, "requires of "+con.ID()+" (ghost arguments) in "+fr.label, u.allTags(), ps)
			st.end("ghosts not matched")
		}
	} else {
		en.lets(con)
		for _, cl := range con.all("requires") {
			tags := cl.tags
			if tags == nil {
				tags = u.allTags()
			}
			st.Prove(en.boolT(cl.expr), "requires \""+cl.label+"\" of "+con.ID()+" called in "+fr.label, tags, ps)
		}
		for _, cl := range con.all("decreases") {
			if u.Con.Fn == con.Fn && st.vars["measure"] != nil {
				m := en.term(cl.expr)
				st.Prove(c.And(c.Le(c.Zero, m), c.Lt(m, st.vars["measure"])), "termination measure decreases at call of "+con.ID()+" in "+fr.label, cl.tagsOr(u, u.Con), ps)
			}
		}
	}
	st.dbgVacuous("before " + con.ID())
	old := copyHeap(st.heap)
	var ls []loc
	for _, cl := range con.all("modifies") {
		ls = append(ls, en.locs(cl.expr)...)
	}
	type hav struct {
		name string
		v    *Term
	}
	var havs []hav
	for _, l := range ls {
		v := c.Fresh("m", l.sort)
		if l.sort == SInt {
			havs = append(havs, hav{l.name, v})
		}
		if l.name == "G:pos" { // readers stay within their stream
			st.Assume(c.Le(c.Zero, v))
			st.Assume(c.Le(v, c.Len(c.UF("inp", SStr, l.ref))))
		}
		if l.leaf != nil && l.leaf.kind == kInt {
			for _, f := range c.leafFacts([]Leaf{*l.leaf}, []*Term{v}) {
				st.Assume(f)
			}
		}
		if l.win != nil {
			st.setBytes(l.win, st.freshStr("window", l.win[2]))
			continue
		}
		st.wr(l.name, l.sort, l.ref, v)
	}
	for _, cl := range con.all("havoc") {
		for _, n := range cl.names {
			st.havocMap(n)
		}
	}
	// results
	rs := fn.Signature.Results()
	allocs, fresh := map[string]bool{}, map[string]bool{}
	for _, cl := range con.all("fresh") {
		for _, n := range cl.names {
			fresh[n] = true
		}
	}
	for _, cl := range con.all("alloc") {
		for _, n := range cl.names {
			allocs[n] = true
		}
	}
	var out []SV
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if allocs[con.results[i]] {
			el := pointee(t)
			r := st.newRef()
			for _, l := range leaves(el) {
				st.wr(fName(el, l.path), l.sort(), r, c.Fresh("new", l.sort()))
			}
			out = append(out, tv(r))
			continue
		}
		fn := "res:" + con.ID() + ":" + con.results[i]
		v := st.freshVal(fn, t)
		for k, l := range leaves(t) {
			if l.kind == kRef || l.kind == kSlRef {
				if fresh[con.results[i]] || fresh[con.results[i]+"."+l.path] {
					st.Assume(c.Or(c.Eq(v.t[k], c.Zero), c.region(v.t[k])))
				} else { // anything that exists by now
					st.Assume(c.Or(c.Le(c.Int(-st.allocN), v.t[k]), c.region(v.t[k])))
				}
			}
			if l.kind == kAny && fresh[con.results[i]] {
				c.freshRes[v.t[k]] = true
			}
		}
		out = append(out, v)
	}
	var res SV
	if len(out) == 1 {
		res = out[0]
	} else {
		res = SV{tup: out}
		if out == nil {
			res.tup = []SV{}
		}
	}
	if !matched {
		return res
	}
	st.dbgVacuous("results " + con.ID())
	en.old = old
	en.bindResults(con, fn, res)
	for _, cl := range con.all("sets") {
		l := en.locs(cl.lhs)
		v := en.eval(cl.expr)
		var vs []*Term
		if v.nil_ {
			for _, x := range l {
				vs = append(vs, c.zeroOf(x.sort))
			}
		} else {
			vs = en.leaves(v)
		}
		for i := range l {
			st.wr(l[i].name, l[i].sort, l[i].ref, vs[i])
		}
	}
	for _, cl := range con.all("split") {
		st.Branch(en.boolT(cl.expr))
	}
	en.caller = true
	n0 := len(st.pc)
	defer func() {
		// locations known to keep their values
		for _, h := range havs {
			if t := st.knownEqual(h.v, n0); t != nil {
				st.heap[h.name] = c.Subst(st.heap[h.name], map[*Term]*Term{h.v: t})
			}
		}
	}()
	for _, cl := range con.all("ensures") {
		t := st.simp(en.boolT(cl.expr))
		st.Assume(t)
		st.dbgVacuous(con.ID() + " " + cl.label)
	}
	for _, cl := range con.all("also") { // other contracts of the function
		for _, n := range cl.names {
			st.alsoContract(n, con, fn, args, res, old)
		}
	}
	for _, cl := range con.all("model") { // what the environment does, not proved
		u.Assumed["model in "+con.ID()+": "+cl.label] = true
		st.Assume(st.simp(en.boolT(cl.expr)))
		st.dbgVacuous(con.ID() + " " + cl.label)
	}
	return st.resolveRes(res)
}

// alsoContract: where the requirements of another contract of the function
// hold, so do its results.  Its ghosts are those of the caller.
func (st *State) alsoContract(name string, base *Contract, fn *ssa.Function, args []SV, res SV, old map[string]*Term) {
	c, u := st.c, st.c.U
	con := u.Specs.con[name]
	if con == nil || con.Fn != base.Fn || len(con.all("modifies")) > 0 || len(con.all("match"))+len(con.all("let"))+len(con.all("sets")) > 0 {
		panic(toolErr{"also " + name + ": no such contract, or not of this kind"})
	}
	en := &Env{st: st, vars: map[string]EV{}, con: con, old: old, caller: true}
	en.bindParams(con, fn, args)
	for _, g := range con.ghosts {
		ok := false
		for _, h := range u.Con.ghosts {
			if g == h {
				en.vars[g[0]] = T(c.Var("ghost:"+g[0], Sort(g[1])))
				ok = true
			}
		}
		if !ok {
			return
		}
	}
	u.Used[con.ID()] = true
	cur := st.heap
	st.heap = old
	pre := c.True
	for _, cl := range con.all("requires") {
		pre = c.And(pre, en.boolT(cl.expr))
	}
	st.heap = cur
	if !st.Branch(pre) {
		return
	}
	en.bindResults(con, fn, res)
	for _, cl := range con.all("ensures") {
		st.Assume(st.simp(en.boolT(cl.expr)))
	}
}

// knownEqual finds an older term the path equates with variable v.
func (st *State) knownEqual(v *Term, n0 int) *Term {
	for _, f := range st.pc[min(n0, len(st.pc)):] {
		if f.op != OEq0 {
			continue
		}
		if f.args[0] == v {
			return st.c.Zero
		}
		if f.args[0].op != OLin {
			continue
		}
		l := f.args[0]
		if l.n.Sign() != 0 {
			continue
		}
		if len(l.args) == 1 && l.args[0] == v {
			return st.c.Zero
		}
		if len(l.args) != 2 {
			continue
		}
		for i := range l.args {
			o := l.args[1-i]
			if l.args[i] == v && o.id < v.id && l.coef[0].Cmp(new(big.Int).Neg(l.coef[1])) == 0 {
				return o
			}
		}
	}
	return nil
}

// region: private identity range of a contract result.
func (c *Ctx) region(v *Term) *Term { return c.regionOf(v, v) }

func (c *Ctx) regionOf(key, v *Term) *Term {
	if c.regions == nil {
		c.regions = map[*Term]int64{}
	}
	k, ok := c.regions[key]
	if !ok {
		k = int64(len(c.regions) + 1)
		c.regions[key] = k
	}
	const G = 1000000000
	return c.And(c.Le(c.Int(-G*(k+1)), v), c.Lt(v, c.Int(-G*k)))
}

func (st *State) havocMap(name string) {
	c := st.c
	h, ok := st.heap[name]
	if !ok {
		return
	}
	st.heap[name] = c.Fresh("H:"+name, h.sort)
	st.writes = append(st.writes, write{name, nil})
}

// matchGhost solves  v, rest := unpack(s)  (s == pack(v) ++ rest).
func (st *State) matchGhost(en *Env, cl *clause) bool {
	c := st.c
	call, ok := cl.expr.(*ast.CallExpr)
	if !ok {
		en.fail("bad match clause")
	}
	switch call.Fun.(*ast.Ident).Name {
	case "unpack":
		s := st.normT(en.term(call.Args[0]))
		for n := 0; n < 6; n++ {
			ps := Pieces(s)
			if len(ps) == 0 {
				return false
			}
			p := ps[0]
			switch {
			case p.op == OUF && p.s == "pack":
				en.vars[cl.names[0]] = T(p.args[0])
				en.vars[cl.names[1]] = T(c.Concat(ps[1:]...))
				return true
			case p.op == OUF && p.s == "packint":
				en.vars[cl.names[0]] = T(c.Ctor("int64", p.args[0]))
				en.vars[cl.names[1]] = T(c.Concat(ps[1:]...))
				return true
			}
			e := st.expand(p, true)
			if e == nil {
				return false
			}
			s = st.normT(c.Concat(append(append([]*Term{}, e...), ps[1:]...)...))
		}
		return false
	}
	en.fail("unknown match function")
	return false
}

// resolveRes replaces result values the path knows to equal a constructor
// application by it.
func (st *State) resolveRes(v SV) SV {
	if v.tup != nil {
		var out []SV
		for _, x := range v.tup {
			out = append(out, st.resolveRes(x))
		}
		if out == nil {
			out = []SV{}
		}
		return SV{tup: out}
	}
	for i, t := range v.t {
		if t.sort != SAny || t.op == OCtor {
			continue
		}
		for _, f := range st.pc {
			if f.op == OEq && f.args[0].sort == SAny {
				for k := 0; k < 2; k++ {
					if f.args[k] == t && f.args[1-k].op == OCtor {
						v.t = append([]*Term(nil), v.t...)
						v.t[i] = f.args[1-k]
					}
				}
			}
		}
	}
	return v
}
