package main

// Hash-consed terms.  Integers are mathematical integers; every machine
// operation is translated exactly (explicit wrap-around, see wrapInt).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is the SMT-LIB text of the sort.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str" // sequences of bytes
	SAny  Sort = "Any" // Go interface values
)

func arrSort(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

// splitArr returns index and element sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	t := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	i := strings.Index(t, " ")
	return Sort(t[:i]), Sort(t[i+1:])
}

type Op uint8

const (
	OVar    Op = iota // s = name
	OBound            // bound variable, s = name
	OLin              // n + sum coef[i]*args[i]
	OBoolC            // n = 0/1
	OAnd              //
	OOr               //
	ONot              //
	OLe0              // args[0] <= 0
	OEq0              // args[0] == 0
	OEq               // other sorts
	OIte              //
	OSelect           //
	OStore            //
	OUF               // s = name, args
	OCtor             // s = ctor name
	OSel              // s = ctor name, n = field
	OIs               // s = ctor name
	OForall           // args[0]=bound, args[1]=body, args[2:]=patterns
	ODiv              // floor div by positive constant n
	OMod              // floor mod by positive constant n
	// sequences
	OConcat // args: pieces
	OUnit   // args[0]: byte value
	OLit    // s: literal bytes
	OSub    // args: base, lo, hi
	OFold   // args: bound, body(Str), lo, hi
	OList   // Any: args: bound, body(Any), n   -- spec-level list value
	OConstA // constant array, args[0] = value
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	coef  []*big.Int
	n     *big.Int
	s     string
	depth int // binder depth
	bnd   bool
	fv    []*Term // free bound variables
	size  int
}

type Ctx struct {
	tab      map[string]*Term
	terms    []*Term
	fresh    map[string]int
	True     *Term
	False    *Term
	Zero     *Term
	Empty    *Term
	smt      *Solver
	ctors    map[string]*CtorInfo
	varSort  map[string]Sort
	ctorL    []string
	ufSig    map[string]ufsig
	facts    map[*Term][]*Term // always-true facts attached to a term
	P        *Program
	U        *Unit
	verb     bool
	substN   int
	old      map[*Term]bool
	freshRes map[*Term]bool
	regions  map[*Term]int64
}

type ufsig struct {
	args []Sort
	res  Sort
}

type CtorInfo struct {
	name   string
	fields []Sort
	typ    interface{}
}

func NewCtx(p *Program) *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, ctors: map[string]*CtorInfo{}, ufSig: map[string]ufsig{}, facts: map[*Term][]*Term{}, freshRes: map[*Term]bool{}, P: p}
	c.True = c.mk(&Term{op: OBoolC, sort: SBool, n: big.NewInt(1)})
	c.False = c.mk(&Term{op: OBoolC, sort: SBool, n: big.NewInt(0)})
	c.Zero = c.Int(0)
	c.Empty = c.mk(&Term{op: OConcat, sort: SStr})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 'A')
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, k := range t.coef {
		b.WriteByte('*')
		b.WriteString(k.String())
	}
	if t.n != nil {
		b.WriteByte('#')
		b.WriteString(t.n.String())
	}
	if t.s != "" || t.op == OVar || t.op == OUF {
		b.WriteByte('$')
		b.WriteString(t.s)
	}
	b.WriteByte(':')
	b.WriteString(string(t.sort))
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	t.id = len(c.terms)
	t.size = 1
	for i, a := range t.args {
		d := a.depth
		if (t.op == OForall || t.op == OFold || t.op == OList) && i == 1 {
			d++
		}
		if d > t.depth {
			t.depth = d
		}
		for _, v := range a.fv {
			if (t.op == OForall || t.op == OFold || t.op == OList) && v == t.args[0] {
				continue
			}
			has := false
			for _, w := range t.fv {
				has = has || w == v
			}
			if !has {
				t.fv = append(t.fv, v)
			}
		}
		t.size += a.size
	}
	if t.op == OBound {
		t.fv = []*Term{t}
	}
	t.bnd = len(t.fv) > 0
	c.terms = append(c.terms, t)
	c.tab[k] = t
	return t
}

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(&Term{op: OVar, sort: s, s: name}) }

// Fresh makes a new variable.
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh[prefix]++
	n := fmt.Sprintf("%s!%d", prefix, c.fresh[prefix])
	if c.varSort == nil {
		c.varSort = map[string]Sort{}
	}
	if o, ok := c.varSort[n]; ok && o != s { // counters are reset: keep names apart by sort
		n += "'" + strings.NewReplacer(" ", "_", "(", "", ")", "").Replace(string(s))
	} else {
		c.varSort[n] = s
	}
	return c.Var(n, s)
}

func (c *Ctx) Int(i int64) *Term { return c.BigInt(big.NewInt(i)) }
func (c *Ctx) BigInt(i *big.Int) *Term {
	return c.mk(&Term{op: OLin, sort: SInt, n: i})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) isInt() (*big.Int, bool) {
	if t.op == OLin && len(t.args) == 0 {
		return t.n, true
	}
	return nil, false
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OLin && len(t.args) == 0 && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}
func (t *Term) isTrue() bool  { return t.op == OBoolC && t.n.Sign() != 0 }
func (t *Term) isFalse() bool { return t.op == OBoolC && t.n.Sign() == 0 }

// lin decomposes an Int term.
func lin(t *Term) ([]*Term, []*big.Int, *big.Int) {
	if t.op == OLin {
		return t.args, t.coef, t.n
	}
	return []*Term{t}, []*big.Int{big.NewInt(1)}, new(big.Int)
}

func (c *Ctx) mkLin(m map[*Term]*big.Int, k *big.Int) *Term {
	var as []*Term
	for a, v := range m {
		if v.Sign() != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k.Sign() == 0 && m[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return c.mk(&Term{op: OLin, sort: SInt, args: as, coef: cs, n: k})
}

func (c *Ctx) lincomb(a *Term, ka int64, b *Term, kb int64) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	add := func(t *Term, f *big.Int) {
		as, cs, n := lin(t)
		for i, x := range as {
			v := new(big.Int).Mul(cs[i], f)
			if o, ok := m[x]; ok {
				v.Add(v, o)
			}
			m[x] = v
		}
		k.Add(k, new(big.Int).Mul(n, f))
	}
	add(a, big.NewInt(ka))
	add(b, big.NewInt(kb))
	return c.mkLin(m, k)
}
func (c *Ctx) Add(a, b *Term) *Term { return c.lincomb(a, 1, b, 1) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.lincomb(a, 1, b, -1) }
func (c *Ctx) AddI(a *Term, k int64) *Term {
	return c.lincomb(a, 1, c.Int(k), 1)
}
func (c *Ctx) Scale(a *Term, k *big.Int) *Term {
	as, cs, n := lin(a)
	m := map[*Term]*big.Int{}
	for i, x := range as {
		m[x] = new(big.Int).Mul(cs[i], k)
	}
	return c.mkLin(m, new(big.Int).Mul(n, k))
}
func (c *Ctx) ScaleI(a *Term, k int64) *Term { return c.Scale(a, big.NewInt(k)) }

// Mul multiplies; nonlinear products become an uninterpreted function.
func (c *Ctx) Mul(a, b *Term) *Term {
	if n, ok := a.isInt(); ok {
		return c.Scale(b, n)
	}
	if n, ok := b.isInt(); ok {
		return c.Scale(a, n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.UF("nlmul", SInt, a, b)
}

func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if n, ok := a.isInt(); ok {
		return c.BigInt(new(big.Int).Mod(n, k))
	}
	// drop multiples of k
	as, cs, n := lin(a)
	m := map[*Term]*big.Int{}
	for i, x := range as {
		v := new(big.Int).Mod(cs[i], k)
		if v.Sign() == 0 {
			continue
		}
		// mod of mod with multiple modulus
		if x.op == OMod && new(big.Int).Mod(x.n, k).Sign() == 0 {
			ys, ycs, yn := lin(x.args[0])
			for j, y := range ys {
				w := new(big.Int).Mul(ycs[j], v)
				if o, ok := m[y]; ok {
					w.Add(w, o)
				}
				m[y] = w.Mod(w, k)
			}
			n = new(big.Int).Add(n, new(big.Int).Mul(yn, v))
			continue
		}
		if o, ok := m[x]; ok {
			v = v.Add(v, o)
			v.Mod(v, k)
		}
		m[x] = v
	}
	nn := new(big.Int).Mod(n, k)
	in := c.mkLin(m, nn)
	if v, ok := in.isInt(); ok {
		return c.BigInt(new(big.Int).Mod(v, k))
	}
	if lo, hi := c.staticRange(in); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return in
	}
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{in}, n: k})
}

func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if n, ok := a.isInt(); ok {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(n, k, m)
		return c.BigInt(q)
	}
	if lo, hi := c.staticRange(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return c.Zero
	}
	return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a}, n: k})
}

// staticRange gives syntactic bounds (nil = unknown).
func (c *Ctx) staticRange(t *Term) (*big.Int, *big.Int) {
	switch t.op {
	case OMod:
		return new(big.Int), new(big.Int).Sub(t.n, big.NewInt(1))
	case OUF:
		if t.s == "sat" {
			return new(big.Int), big.NewInt(255)
		}
		if t.s == "slen" {
			return new(big.Int), nil
		}
	case OLin:
		lo, hi := new(big.Int).Set(t.n), new(big.Int).Set(t.n)
		for i, a := range t.args {
			l, h := c.staticRange(a)
			if t.coef[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo.Add(lo, new(big.Int).Mul(l, t.coef[i]))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi.Add(hi, new(big.Int).Mul(h, t.coef[i]))
			} else {
				hi = nil
			}
		}
		return lo, hi
	case OIte:
		l1, h1 := c.staticRange(t.args[1])
		l2, h2 := c.staticRange(t.args[2])
		if l1 != nil && l2 != nil {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
		} else {
			l1 = nil
		}
		if h1 != nil && h2 != nil {
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
		} else {
			h1 = nil
		}
		return l1, h1
	}
	return nil, nil
}

func (c *Ctx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le0(c.AddI(c.Sub(a, b), 1)) }
func (c *Ctx) Le0(d *Term) *Term {
	if n, ok := d.isInt(); ok {
		return c.Bool(n.Sign() <= 0)
	}
	if lo, hi := c.staticRange(d); hi != nil && hi.Sign() <= 0 {
		return c.True
	} else if lo != nil && lo.Sign() > 0 {
		return c.False
	}
	// divide by gcd
	if d.op == OLin {
		g := new(big.Int)
		for _, k := range d.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			m := map[*Term]*big.Int{}
			for i, a := range d.args {
				m[a] = new(big.Int).Quo(d.coef[i], g)
			}
			// sum g*x + n <= 0  <=> sum x + ceil(n/g) <= 0
			q := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(d.n), g))
			d = c.mkLin(m, q)
		}
	}
	return c.mk(&Term{op: OLe0, sort: SBool, args: []*Term{d}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, c.Str(a), c.Str(b)))
	}
	switch a.sort {
	case SInt:
		d := c.Sub(a, b)
		if n, ok := d.isInt(); ok {
			return c.Bool(n.Sign() == 0)
		}
		lo, hi := c.staticRange(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.False
		}
		if d.op == OLin && len(d.coef) > 0 {
			if d.coef[0].Sign() < 0 {
				d = c.ScaleI(d, -1)
			}
			g := new(big.Int)
			for _, k := range d.coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(big.NewInt(1)) > 0 {
				if new(big.Int).Mod(d.n, g).Sign() != 0 {
					return c.False
				}
				m := map[*Term]*big.Int{}
				for i, a := range d.args {
					m[a] = new(big.Int).Quo(d.coef[i], g)
				}
				d = c.mkLin(m, new(big.Int).Quo(d.n, g))
			}
		}
		return c.mk(&Term{op: OEq0, sort: SBool, args: []*Term{d}})
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	case SAny:
		if a.op == OCtor && b.op == OCtor {
			if a.s != b.s {
				return c.False
			}
			r := c.True
			for i := range a.args {
				r = c.And(r, c.Eq(a.args[i], b.args[i]))
			}
			return r
		}
		// nil comparison -> tester
		if a.op == OCtor && len(a.args) == 0 {
			return c.Is(a.s, b)
		}
		if b.op == OCtor && len(b.args) == 0 {
			return c.Is(b.s, a)
		}
	case SStr:
		if la, ok := a.litVal(); ok {
			if lb, ok2 := b.litVal(); ok2 {
				return c.Bool(la == lb)
			}
			if la == "" {
				return c.Eq(c.Len(b), c.Zero)
			}
		}
		if lb, ok := b.litVal(); ok && lb == "" {
			return c.Eq(c.Len(a), c.Zero)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OBoolC:
		return c.Bool(a.n.Sign() == 0)
	case ONot:
		return a.args[0]
	case OLe0: // not (d<=0) <=> d>=1 <=> 1-d<=0
		return c.Le0(c.lincomb(c.Int(1), 1, a.args[0], -1))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == op {
			for _, a := range t.args {
				if add(a) {
					return true
				}
			}
			return false
		}
		if t.isTrue() {
			return op == OOr
		}
		if t.isFalse() {
			return op == OAnd
		}
		if seen[t] {
			return false
		}
		if seen[c.Not(t)] {
			return true
		}
		seen[t] = true
		out = append(out, t)
		return false
	}
	for _, x := range xs {
		if add(x) {
			return c.Bool(op == OOr)
		}
	}
	if len(out) == 0 {
		return c.Bool(op == OAnd)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}
func (c *Ctx) And(xs ...*Term) *Term    { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term     { return c.nary(OOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term     { return c.Eq(a, b) }
func (c *Ctx) Neq(a, b *Term) *Term     { return c.Not(c.Eq(a, b)) }
func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return c.And(c.Implies(p, a), c.Implies(c.Not(p), b))
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{p, a, b}})
}

func (c *Ctx) Select(a, i *Term) *Term {
	for a.op == OStore {
		if a.args[1] == i {
			return a.args[2]
		}
		if c.Eq(a.args[1], i).isFalse() {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == OConstA {
		return a.args[0]
	}
	_, e := splitArr(a.sort)
	return c.mk(&Term{op: OSelect, sort: e, args: []*Term{a, i}})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	_, e := splitArr(a.sort)
	if e != v.sort {
		panic(fmt.Sprintf("Store sort %s into %s", v.sort, a.sort))
	}
	if a.op == OStore && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}
func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(&Term{op: OConstA, sort: s, args: []*Term{v}})
}

func (c *Ctx) UF(name string, res Sort, args ...*Term) *Term {
	if _, ok := c.ufSig[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.sort)
		}
		c.ufSig[name] = ufsig{as, res}
	} else {
		sg := c.ufSig[name]
		if len(sg.args) != len(args) || sg.res != res {
			panic("UF signature mismatch " + name)
		}
		for i := range args {
			if args[i].sort != sg.args[i] {
				panic(fmt.Sprintf("UF arg sort mismatch %s arg %d: %s want %s", name, i, args[i].sort, sg.args[i]))
			}
		}
	}
	if len(args) == 1 && args[0] == c.Empty {
		switch name {
		case "unframe":
			return c.Empty
		case "wf":
			return c.True
		}
	}
	t := c.mk(&Term{op: OUF, sort: res, s: name, args: args})
	if !t.bnd {
		switch name {
		case "ord":
			c.ordFacts(t)
		case "pack":
			c.addFact(t, c.Le(c.Int(1), c.Len(t)))
		case "f32to64": // the bits of a float64
			_, hi := intRange(64, false)
			c.addFact(t, c.Le(c.Zero, t), c.Le(t, c.BigInt(hi)))
		case "packint":
			c.addFact(t, c.Le(c.Int(1), c.Len(t)), c.Le(c.Len(t), c.Int(9)))
		case "packhdr":
			c.addFact(t, c.Le(c.Int(1), c.Len(t)), c.Le(c.Len(t), c.Int(5)))
		}
	}
	return t
}

func (c *Ctx) Ctor(name string, args ...*Term) *Term {
	ci := c.ctors[name]
	if ci == nil {
		panic("unknown ctor " + name)
	}
	if len(ci.fields) != len(args) {
		panic(fmt.Sprintf("ctor arity %s: %d vs %d", name, len(ci.fields), len(args)))
	}
	// eta: ctor(sel0(v),...,seln(v)) with at least one field stays as is
	return c.mk(&Term{op: OCtor, sort: SAny, s: name, args: args})
}
func (c *Ctx) SelC(name string, i int, v *Term) *Term {
	if v.op == OCtor && v.s == name {
		return v.args[i]
	}
	ci := c.ctors[name]
	return c.mk(&Term{op: OSel, sort: ci.fields[i], s: name, n: big.NewInt(int64(i)), args: []*Term{v}})
}
func (c *Ctx) Is(name string, v *Term) *Term {
	if v.op == OCtor {
		return c.Bool(v.s == name)
	}
	if v.op == OList {
		return c.Bool(name == "list")
	}
	if v.op == OIte {
		return c.Ite(v.args[0], c.Is(name, v.args[1]), c.Is(name, v.args[2]))
	}
	return c.mk(&Term{op: OIs, sort: SBool, s: name, args: []*Term{v}})
}

// Binder builds a binder body with a canonical bound variable.
func (c *Ctx) bind(s Sort, f func(j *Term) *Term) (*Term, *Term) {
	c.substN++
	tmp := c.mk(&Term{op: OBound, sort: s, s: fmt.Sprintf("?tmp%d", c.substN)})
	body := f(tmp)
	bv := c.mk(&Term{op: OBound, sort: s, s: fmt.Sprintf("?j%d", body.depth+1)})
	return bv, c.Subst(body, map[*Term]*Term{tmp: bv})
}
func (c *Ctx) Forall(s Sort, f func(j *Term) *Term, pats ...func(j *Term) *Term) *Term {
	c.substN++
	tmp := c.mk(&Term{op: OBound, sort: s, s: fmt.Sprintf("?tmp%d", c.substN)})
	body := f(tmp)
	if body.isTrue() || body.isFalse() {
		return body
	}
	bv := c.mk(&Term{op: OBound, sort: s, s: fmt.Sprintf("?j%d", body.depth+1)})
	m := map[*Term]*Term{tmp: bv}
	args := []*Term{bv, c.Subst(body, m)}
	for _, p := range pats {
		args = append(args, c.Subst(p(tmp), m))
	}
	return c.mkForall(args)
}

// Inst instantiates a binder term (OForall/OFold/OList) body.
func (c *Ctx) Inst(t *Term, v *Term) *Term {
	return c.Subst(t.args[1], map[*Term]*Term{t.args[0]: v})
}

// Subst rebuilds t replacing terms (through smart constructors).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.Rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OLin:
		r := c.BigInt(t.n)
		for i, x := range a {
			r = c.Add(r, c.Scale(x, t.coef[i]))
		}
		return r
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case ONot:
		return c.Not(a[0])
	case OLe0:
		return c.Le0(a[0])
	case OEq0:
		return c.Eq(a[0], c.Zero)
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OSelect:
		return c.Select(a[0], a[1])
	case OStore:
		return c.Store(a[0], a[1], a[2])
	case OUF:
		switch t.s {
		case "slen":
			return c.Len(a[0])
		case "sat":
			return c.At(a[0], a[1])
		}
		return c.UF(t.s, t.sort, a...)
	case OCtor:
		return c.Ctor(t.s, a...)
	case OSel:
		return c.SelC(t.s, int(t.n.Int64()), a[0])
	case OIs:
		return c.Is(t.s, a[0])
	case ODiv:
		return c.Div(a[0], t.n)
	case OMod:
		return c.Mod(a[0], t.n)
	case OConcat:
		return c.Concat(a...)
	case OSub:
		return c.SubS(a[0], a[1], a[2])
	case OForall:
		return c.mkForall(a)
	case OFold:
		return c.fold(a[0], a[1], a[2], a[3])
	}
	nt := *t
	nt.args = a
	nt.depth = 0
	nt.fv = nil
	return c.mk(&nt)
}

// Contains reports whether t mentions x.
func (c *Ctx) Contains(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Str prints a term for humans.
func (c *Ctx) Str(t *Term) string { return c.str(t, 0) }
func (c *Ctx) str(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "..."
	}
	as := func() string {
		var xs []string
		for _, a := range t.args {
			xs = append(xs, c.str(a, d+1))
		}
		return strings.Join(xs, ", ")
	}
	switch t.op {
	case OVar, OBound:
		return t.s
	case OLin:
		if len(t.args) == 0 {
			return t.n.String()
		}
		var xs []string
		for i, a := range t.args {
			k := t.coef[i]
			if k.Cmp(big.NewInt(1)) == 0 {
				xs = append(xs, c.str(a, d+1))
			} else {
				xs = append(xs, k.String()+"*"+c.str(a, d+1))
			}
		}
		if t.n.Sign() != 0 {
			xs = append(xs, t.n.String())
		}
		return "(" + strings.Join(xs, " + ") + ")"
	case OBoolC:
		return fmt.Sprint(t.isTrue())
	case OAnd:
		var xs []string
		for _, a := range t.args {
			xs = append(xs, c.str(a, d+1))
		}
		return "(" + strings.Join(xs, " && ") + ")"
	case OOr:
		var xs []string
		for _, a := range t.args {
			xs = append(xs, c.str(a, d+1))
		}
		return "(" + strings.Join(xs, " || ") + ")"
	case ONot:
		return "!" + c.str(t.args[0], d+1)
	case OLe0:
		return c.str(t.args[0], d+1) + "<=0"
	case OEq0:
		return c.str(t.args[0], d+1) + "==0"
	case OEq:
		return "(" + c.str(t.args[0], d+1) + " == " + c.str(t.args[1], d+1) + ")"
	case OIte:
		return "ite(" + as() + ")"
	case OSelect:
		return c.str(t.args[0], d+1) + "[" + c.str(t.args[1], d+1) + "]"
	case OStore:
		return "store(" + as() + ")"
	case OUF, OCtor:
		return t.s + "(" + as() + ")"
	case OSel:
		return c.str(t.args[0], d+1) + "." + t.s + "#" + t.n.String()
	case OIs:
		return "is-" + t.s + "(" + as() + ")"
	case OForall:
		return "forall " + c.str(t.args[0], d) + ". " + c.str(t.args[1], d+1)
	case ODiv:
		return "(" + as() + " div " + t.n.String() + ")"
	case OMod:
		return "(" + as() + " mod " + t.n.String() + ")"
	case OConcat:
		if len(t.args) == 0 {
			return "\"\""
		}
		var xs []string
		for _, a := range t.args {
			xs = append(xs, c.str(a, d+1))
		}
		return "<" + strings.Join(xs, " . ") + ">"
	case OUnit:
		return "[" + as() + "]"
	case OLit:
		return strconv.Quote(t.s)
	case OSub:
		return c.str(t.args[0], d+1) + "[" + c.str(t.args[1], d+1) + ":" + c.str(t.args[2], d+1) + "]"
	case OFold:
		return "fold{" + c.str(t.args[0], d) + ":" + c.str(t.args[2], d+1) + ".." + c.str(t.args[3], d+1) + "|" + c.str(t.args[1], d+1) + "}"
	case OList:
		return "list{" + c.str(t.args[0], d) + "<" + c.str(t.args[2], d+1) + "|" + c.str(t.args[1], d+1) + "}"
	case OConstA:
		return "const(" + as() + ")"
	}
	return "?"
}

// mkForall: args are the bound variable, the body and patterns.
func (c *Ctx) mkForall(args []*Term) *Term {
	if args[1].isTrue() || args[1].isFalse() {
		return args[1]
	}
	out := append([]*Term(nil), args[:2]...)
	for _, p := range args[2:] {
		if (p.op == OUF || p.op == OSelect || p.op == OSel) && c.Contains(p, func(x *Term) bool { return x == args[0] }) {
			out = append(out, p)
		}
	}
	return c.mk(&Term{op: OForall, sort: SBool, args: out})
}
