package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"regexp"
	"sort"
	"strings"
)

// Explorer enumerates the decision traces of a deterministic computation.
type Explorer struct {
	parent *Explorer
	pid    string // identity of the point it was started from
	trace  []decision
	pos    int
	paths  int
}

type decision struct{ choice, n int }

type pathEnd struct{ why string }

// State is the symbolic state of one path.
type State struct {
	c        *Ctx
	ex       *Explorer
	heap     map[string]*Term
	pc       []*Term
	pcset    map[*Term]bool
	rules    []seqRule
	ctor     map[*Term]string
	nctor    map[*Term]map[string]bool
	allocN   int64
	writes   []write
	depth    int
	stack    []string
	quiet    int // >0: obligations are not recorded (scouting)
	sames    []*Term
	vars     map[string]*Term // per-path bookkeeping
	wfs      []*Term          // sequences known well-framed
	fn       map[*Term]*FuncVal
	notes    []string
	noFork   bool
	optim    bool // loop inference: assume no overflow (checked in the real run)
	loopHeap map[string]*Term
	starts   map[*ssa.BasicBlock]map[string]*Term // heaps in which loops were entered
	oldHeap  map[string]*Term
}

type write struct {
	name string
	ref  *Term
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term(nil), st.pc...)
	n.pcset = make(map[*Term]bool, len(st.pcset))
	for k, v := range st.pcset {
		n.pcset[k] = v
	}
	n.rules = append([]seqRule(nil), st.rules...)
	n.ctor = make(map[*Term]string, len(st.ctor))
	for k, v := range st.ctor {
		n.ctor[k] = v
	}
	n.nctor = make(map[*Term]map[string]bool, len(st.nctor))
	for k, v := range st.nctor {
		m := map[string]bool{}
		for a := range v {
			m[a] = true
		}
		n.nctor[k] = m
	}
	n.starts = make(map[*ssa.BasicBlock]map[string]*Term, len(st.starts))
	for k, v := range st.starts {
		n.starts[k] = v
	}
	n.writes = append([]write(nil), st.writes...)
	n.stack = append([]string(nil), st.stack...)
	n.sames = append([]*Term(nil), st.sames...)
	n.wfs = append([]*Term(nil), st.wfs...)
	n.notes = append([]string(nil), st.notes...)
	n.vars = make(map[string]*Term, len(st.vars))
	for k, v := range st.vars {
		n.vars[k] = v
	}
	return &n
}

func NewState(c *Ctx) *State {
	return &State{c: c, heap: map[string]*Term{}, pcset: map[*Term]bool{}, ctor: map[*Term]string{}, nctor: map[*Term]map[string]bool{}, vars: map[string]*Term{}}
}

// explore runs f on every feasible path from st0.
func (c *Ctx) explore(st0 *State, tag string, f func(st *State)) int {
	ex := &Explorer{parent: st0.ex}
	if st0.ex != nil {
		ex.pid = st0.ex.path() + "/" + tag
	} else {
		ex.pid = tag
	}
	fresh0 := map[string]int{}
	for k, v := range c.fresh {
		fresh0[k] = v
	}
	max0 := map[string]int{}
	for {
		// deterministic naming: every path starts from the same counters
		c.fresh = map[string]int{}
		for k, v := range fresh0 {
			c.fresh[k] = v
		}
		st := st0.clone()
		st.ex = ex
		ex.pos = 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						if os.Getenv("GOVC_PATHS") != "" {
							fmt.Fprintf(os.Stderr, "path %s ended: %s\n", ex.path(), pe.why)
						}
						return
					}
					panic(r)
				}
			}()
			f(st)
		}()
		for k, v := range c.fresh {
			if v > max0[k] {
				max0[k] = v
			}
		}
		ex.paths++
		if ex.paths > 20000 {
			panic(toolErr{"too many paths in " + tag})
		}
		// advance
		ex.trace = ex.trace[:ex.pos]
		for len(ex.trace) > 0 {
			l := &ex.trace[len(ex.trace)-1]
			if l.choice+1 < l.n {
				l.choice++
				break
			}
			ex.trace = ex.trace[:len(ex.trace)-1]
		}
		if len(ex.trace) == 0 {
			break
		}
	}
	for k, v := range max0 {
		if v > c.fresh[k] {
			c.fresh[k] = v
		}
	}
	return ex.paths
}

func (ex *Explorer) path() string {
	var b strings.Builder
	b.WriteString(ex.pid)
	b.WriteByte(':')
	for _, d := range ex.trace[:ex.pos] {
		if d.n > 1 {
			fmt.Fprintf(&b, "%d.", d.choice)
		}
	}
	return b.String()
}

func (st *State) end(why string) { panic(pathEnd{why}) }

// Choose picks one of n alternatives.
func (st *State) Choose(n int, what string) int {
	ex := st.ex
	if ex == nil {
		panic(toolErr{"Choose outside exploration: " + what})
	}
	if ex.pos < len(ex.trace) {
		d := ex.trace[ex.pos]
		ex.pos++
		return d.choice
	}
	ex.trace = append(ex.trace, decision{0, n})
	ex.pos++
	return 0
}

// Branch decides a condition, forking if both sides are possible.
func (st *State) Branch(cond *Term) bool {
	cond = st.simp(cond)
	if cond.isTrue() {
		return true
	}
	if cond.isFalse() {
		return false
	}
	if st.pcset[cond] {
		return true
	}
	if st.pcset[st.c.Not(cond)] {
		return false
	}
	ex := st.ex
	if st.noFork {
		panic(noFork{})
	}
	if ex == nil {
		panic(toolErr{"Branch outside exploration"})
	}
	var d decision
	if ex.pos < len(ex.trace) {
		d = ex.trace[ex.pos]
		ex.pos++
	} else {
		// choice encoding: n=2 both feasible; n=1: choice 0 = true forced; n=-1: false forced
		ft := st.c.smt.Check(st.pc, cond, 1500, false) != rUnsat
		ff := true
		if ft {
			ff = st.c.smt.Check(st.pc, st.c.Not(cond), 1500, false) != rUnsat
		}
		switch {
		case ft && ff:
			d = decision{0, 2}
		case ft:
			d = decision{0, 1}
		case ff:
			d = decision{0, -1}
		}
		ex.trace = append(ex.trace, d)
		ex.pos++
	}
	v := d.choice == 0
	if d.n == -1 {
		v = false
	}
	if v {
		st.Assume(cond)
	} else {
		st.Assume(st.c.Not(cond))
	}
	return v
}

// decide returns 1 if valid, -1 if refuted, 0 unknown.
func (st *State) decide(cond *Term) int {
	if cond.bnd {
		return 0
	}
	cond = st.simp(cond)
	if cond.isTrue() || st.pcset[cond] {
		return 1
	}
	if cond.isFalse() || st.pcset[st.c.Not(cond)] {
		return -1
	}
	if st.c.smt.Check(st.pc, st.c.Not(cond), 1500, false) == rUnsat {
		return 1
	}
	if st.c.smt.Check(st.pc, cond, 1500, false) == rUnsat {
		return -1
	}
	return 0
}

func (st *State) valid(cond *Term) bool {
	if cond.bnd {
		return false
	}
	cond = st.simp(cond)
	if cond.isTrue() || st.pcset[cond] {
		return true
	}
	if cond.isFalse() {
		return false
	}
	return st.c.smt.Check(st.pc, st.c.Not(cond), 1500, false) == rUnsat
}

// simp applies cheap path knowledge.
func (st *State) simp(t *Term) *Term {
	switch t.op {
	case OIs:
		v := t.args[0]
		if k, ok := st.ctor[v]; ok {
			return st.c.Bool(k == t.s)
		}
		if st.nctor[v][t.s] {
			return st.c.False
		}
	case ONot:
		return st.c.Not(st.simp(t.args[0]))
	case OAnd, OOr:
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = st.simp(a)
			if st.pcset[na[i]] {
				na[i] = st.c.True
			} else if st.pcset[st.c.Not(na[i])] {
				na[i] = st.c.False
			}
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			return st.c.nary(t.op, na)
		}
	}
	return t
}

// Assume adds a fact to the path condition.
func (st *State) Assume(f *Term) {
	f = st.simp(f)
	c := st.c
	if f.isTrue() || st.pcset[f] {
		return
	}
	if f.isFalse() || st.pcset[c.Not(f)] {
		st.end("assumed false")
	}
	switch f.op {
	case OAnd:
		for _, a := range f.args {
			st.Assume(a)
		}
		return
	case OIs:
		st.learnCtor(f.args[0], f.s)
	case ONot:
		if g := f.args[0]; g.op == OOr {
			st.pcset[f] = true
			for _, a := range g.args {
				st.Assume(c.Not(a))
			}
			return
		}
		if g := f.args[0]; g.op == OIs {
			if st.nctor[g.args[0]] == nil {
				st.nctor[g.args[0]] = map[string]bool{}
			}
			st.nctor[g.args[0]][g.s] = true
		}
	case OEq:
		if f.args[0].sort == SStr {
			st.addSeqRule(f.args[0], f.args[1])
		}
		if f.args[0].sort == SAny {
			a, b := f.args[0], f.args[1]
			ka, kb := st.ctorOf(a), st.ctorOf(b)
			if ka != "" && kb == "" {
				defer st.learnCtor(b, ka)
			} else if kb != "" && ka == "" {
				defer st.learnCtor(a, kb)
			}
		}
	case OUF:
		if f.s == "wf" {
			if _, ok := st.parseFrames(f.args[0]); !ok {
				st.wfs = append(st.wfs, f.args[0])
			}
		}
		if f.s == "same" {
			st.assumeSame(f)
			if st.pcset[f] {
				return
			}
		}
		if f.s == "isint" {
			st.pcset[f] = true
			st.pc = append(st.pc, f)
			st.learned(f.args[0])
			for _, s := range append([]*Term(nil), st.sames...) {
				if s.args[1] == f.args[0] {
					st.assumeSame(s)
				}
			}
			return
		}
		if f.s == "dec" {
			if e := st.unfoldDec(f.args[0]); e != nil {
				st.pcset[f] = true
				st.pc = append(st.pc, f)
				st.Assume(e)
				return
			}
		}
		if f.s == "enc" {
			if e := st.unfoldEnc(f.args[0]); e != nil {
				st.pcset[f] = true
				st.pc = append(st.pc, f)
				st.Assume(e)
				return
			}
		}
	}
	st.pcset[f] = true
	st.pc = append(st.pc, f)
}

func (st *State) learnCtor(v *Term, name string) {
	if v.op == OCtor || v.op == OList {
		return
	}
	if k, ok := st.ctor[v]; ok {
		if k != name {
			st.end("ctor clash")
		}
		return
	}
	st.ctor[v] = name
	st.learned(v)
	for _, s := range append([]*Term(nil), st.sames...) {
		if s.args[1] == v {
			st.assumeSame(s)
		}
	}
}

// ctorOf gives the known constructor of an interface value, or "".
func (st *State) ctorOf(v *Term) string {
	switch v.op {
	case OCtor:
		return v.s
	case OList:
		return "list"
	}
	return st.ctor[v]
}

// --- heap ---

func (st *State) hmap(name string, elem Sort) *Term {
	if h, ok := st.heap[name]; ok {
		return h
	}
	h := st.c.Var("H:"+name, arrSort(SInt, elem))
	st.c.markOld(h)
	st.heap[name] = h
	return h
}

func (st *State) distinct(a, b *Term) int { // 1 equal, -1 distinct, 0 unknown
	if a == b {
		return 1
	}
	e := st.c.Eq(a, b)
	if e.isTrue() {
		return 1
	}
	if e.isFalse() {
		return -1
	}
	return st.decide(e)
}

func (st *State) rd(name string, elem Sort, ref *Term) *Term {
	h := st.hmap(name, elem)
	top := h
	for h.op == OStore {
		switch st.distinct(h.args[1], ref) {
		case 1:
			return h.args[2]
		case -1:
			h = h.args[0]
			continue
		}
		return st.c.Select(top, ref)
	}
	return st.c.Select(h, ref)
}

func (st *State) wr(name string, elem Sort, ref, v *Term) {
	h := st.hmap(name, elem)
	if v.sort != elem {
		panic(toolErr{fmt.Sprintf("write %s: sort %s, want %s", name, v.sort, elem)})
	}
	st.heap[name] = st.c.Store(h, ref, v)
	st.writes = append(st.writes, write{name, ref})
}

// newRef allocates a fresh object identity.
func (st *State) newRef() *Term {
	st.allocN++
	return st.c.Int(-st.allocN)
}

// --- old (entry-state) terms ---

func (c *Ctx) markOld(t *Term) {
	if c.old == nil {
		c.old = map[*Term]bool{}
	}
	c.old[t] = true
}

// isOld: the term denotes something reachable from the entry state.
func (c *Ctx) isOld(t *Term) bool {
	if v, ok := c.old[t]; ok {
		return v
	}
	r := false
	switch t.op {
	case OLin:
		r = len(t.args) > 0 || t.n.Sign() >= 0
		for _, a := range t.args {
			r = r && c.isOld(a)
		}
	case OBound:
		r = true
	case OSelect: // any element of an old array is old
		r = c.isOld(t.args[0]) && (t.args[0].op == OSelect || c.isOld(t.args[1]))
	case OSel, OUF, OIte, OSub, OConcat, OUnit:
		r = true
		for _, a := range t.args {
			r = r && c.isOld(a)
		}
	case OLit, OBoolC:
		r = true
	}
	if !t.bnd {
		c.old[t] = r
	}
	return r
}

// --- layout of Go types ---

type leafKind uint8

const (
	kInt leafKind = iota
	kBool
	kStr
	kFloat
	kRef
	kSlRef
	kSlOff
	kSlLen
	kSlCap
	kAny
	kOpaque
)

type Leaf struct {
	path   string
	kind   leafKind
	bits   int
	signed bool
	typ    types.Type
}

func (l Leaf) sort() Sort {
	switch l.kind {
	case kBool:
		return SBool
	case kStr:
		return SStr
	case kAny:
		return SAny
	}
	return SInt
}

var opaqueTypes = map[string]bool{"time.Time": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "crypto/tls.Certificate": true, "bytes.Buffer": true, "reflect.Value": true, "sync/atomic.Int32": true, "net.Dialer": false}

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), repoPath) {
			return shortPkg(p.Path())
		}
		return p.Path()
	})
	if strings.Contains(s, "any") {
		s = anyRE.ReplaceAllString(s, "interface{}")
	}
	if strings.Contains(s, "byte") {
		s = byteRE.ReplaceAllString(s, "uint8")
	}
	return s
}

var byteRE = regexp.MustCompile(`\bbyte\b`)
var anyRE = regexp.MustCompile(`\bany\b`)

func intInfo(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func leaves(t types.Type) []Leaf {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if opaqueTypes[typeName(n)] {
			return []Leaf{{kind: kOpaque, typ: t}}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if b, s := intInfo(u); b > 0 {
			return []Leaf{{kind: kInt, bits: b, signed: s, typ: t}}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{kind: kBool, typ: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{kind: kStr, typ: t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{kind: kFloat, typ: t, bits: 64}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{kind: kRef, typ: t}}
		}
		return []Leaf{{kind: kOpaque, typ: t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{kind: kRef, typ: t}}
	case *types.Slice:
		return []Leaf{{path: "ref", kind: kSlRef, typ: t}, {path: "off", kind: kSlOff, typ: t}, {path: "len", kind: kSlLen, typ: t}, {path: "cap", kind: kSlCap, typ: t}}
	case *types.Interface:
		return []Leaf{{kind: kAny, typ: t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				p := f.Name()
				if l.path != "" {
					p += "." + l.path
				}
				l.path = p
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		return []Leaf{{kind: kOpaque, typ: t}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leaves(u.At(i).Type())...)
		}
		return out
	}
	return []Leaf{{kind: kOpaque, typ: t}}
}

func nLeaves(t types.Type) int { return len(leaves(t)) }

// leafFacts gives range facts for typed leaves.
func (c *Ctx) leafFacts(ls []Leaf, ts []*Term) []*Term {
	var out []*Term
	for i, l := range ls {
		t := ts[i]
		switch l.kind {
		case kInt:
			lo, hi := intRange(l.bits, l.signed)
			out = append(out, c.Le(c.BigInt(lo), t), c.Le(t, c.BigInt(hi)))
		case kRef:
			if c.isOld(t) {
				out = append(out, c.Le(c.Zero, t))
			}
		case kStr:
			if t.op != OLit && t.op != OConcat {
				out = append(out, c.Le(c.Len(t), c.BigInt(pow2(48))))
			}
		case kFloat:
			lo, hi := intRange(64, false)
			out = append(out, c.Le(c.BigInt(lo), t), c.Le(t, c.BigInt(hi)))
		case kSlRef:
			if c.isOld(t) {
				out = append(out, c.Le(c.Zero, t))
			}
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			out = append(out, c.Le(c.Zero, off), c.Le(c.Zero, ln), c.Le(ln, cp), c.Le(c.Add(off, cp), c.BigInt(pow2(48))), c.Implies(c.Eq(t, c.Zero), c.Eq(cp, c.Zero)))
		}
	}
	var r []*Term
	for _, f := range out {
		if !f.isTrue() {
			r = append(r, f)
		}
	}
	return r
}

func (c *Ctx) attachFacts(ls []Leaf, ts []*Term) {
	for i, l := range ls {
		t := ts[i]
		if t.bnd {
			continue
		}
		if len(t.args) == 0 && t.op == OLin {
			continue
		}
		switch l.kind {
		case kSlRef:
			fs := c.leafFacts(ls[i:i+4], ts[i:i+4])
			for k := 0; k < 4; k++ {
				c.addFact(ts[i+k], fs...)
			}
		case kSlOff, kSlLen, kSlCap:
		default:
			c.addFact(t, c.leafFacts(ls[i:i+1], ts[i:i+1])...)
		}
	}
}

func (c *Ctx) addFact(t *Term, fs ...*Term) {
	if len(fs) == 0 {
		return
	}
	for _, f := range fs {
		if !f.bnd && !f.isTrue() && !c.hasFact(t, f) {
			c.facts[t] = append(c.facts[t], f)
		}
	}
}

// --- ctors for concrete types in interfaces ---

func (c *Ctx) ctorFor(t types.Type) string {
	n := typeName(t)
	if _, ok := c.ctors[n]; !ok {
		ci := &CtorInfo{name: n, typ: t}
		for _, l := range leaves(t) {
			ci.fields = append(ci.fields, l.sort())
		}
		c.ctors[n] = ci
		c.ctorL = append(c.ctorL, n)
	}
	return n
}

func (c *Ctx) ctorType(n string) types.Type {
	if ci := c.ctors[n]; ci != nil {
		if t, ok := ci.typ.(types.Type); ok {
			return t
		}
	}
	return nil
}

func (c *Ctx) Nil() *Term { return c.Ctor("nil") }

// unpack gives the payload leaves of interface value v known to hold ctor n.
func (c *Ctx) unpack(n string, v *Term) []*Term {
	ci := c.ctors[n]
	out := make([]*Term, len(ci.fields))
	for i := range ci.fields {
		out[i] = c.SelC(n, i, v)
	}
	if v.op == OCtor { // its parts are other values: no facts of their own
		return out
	}
	if t := c.ctorType(n); t != nil {
		ls := leaves(t)
		c.attachFacts(ls, out)
		if n == "uint" && out[0].op != OLin { // known finding: see known-findings (uint above MaxInt64)
			_, hi := intRange(64, true)
			if f := c.Le(out[0], c.BigInt(hi)); !c.hasFact(out[0], f) {
				c.facts[out[0]] = append(c.facts[out[0]], f)
			}
		}
		if c.freshRes[v] {
			for i, l := range ls {
				if l.kind == kRef || l.kind == kSlRef {
					f := c.Implies(c.Is(n, v), c.Or(c.Eq(out[i], c.Zero), c.region(out[i])))
					if !c.hasFact(out[i], f) {
						c.facts[out[i]] = append(c.facts[out[i]], f)
					}
				}
			}
		}
	}
	return out
}

func (c *Ctx) hasFact(t, f *Term) bool {
	for _, x := range c.facts[t] {
		if x == f {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
