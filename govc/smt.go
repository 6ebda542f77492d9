package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver drives one incremental z3 process and one-shot fallbacks.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	levels  []level
	base    map[string]bool
	cache   map[string]int
	nCtors  int
	timeout int
	light   bool // z3 only: for guesses, where unknown does no harm

	Queries, CacheHits, Unknown, Fallbacks int
	Time                                   time.Duration
	ByBackend                              map[string]int
}

type level struct {
	fact  *Term
	decls []string
}

const (
	rUnknown = iota
	rSat
	rUnsat
)

var totalQueries, Unknown int64

func NewSolver(c *Ctx) *Solver {
	return &Solver{c: c, cache: map[string]int{}, base: map[string]bool{}, ByBackend: map[string]int{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(toolErr{"cannot start z3-new: " + err.Error()})
	}
	s.levels = nil
	s.base = map[string]bool{}
	s.nCtors = len(s.c.ctorL)
	s.timeout = 0
	fmt.Fprint(s.in, "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"+s.c.prelude())
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// logTheory is declared only where the request log is mentioned.
const logTheory = "(declare-fun snoc (Int Any) Int)\n(declare-fun nsent (Int) Int)\n(declare-fun sentat (Int Int) Any)\n(assert (forall ((l Int) (x Any)) (! (= (nsent (snoc l x)) (+ (nsent l) 1)) :pattern ((snoc l x)))))\n(assert (forall ((l Int) (x Any) (i Int)) (! (= (sentat (snoc l x) i) (ite (= i (nsent l)) x (sentat l i))) :pattern ((sentat (snoc l x) i)))))\n"

func (c *Ctx) prelude() string {
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n(declare-sort LV 0)\n")
	b.WriteString("(declare-datatypes ((Any 0)) ((\n")
	for _, n := range c.ctorL {
		ci := c.ctors[n]
		if len(ci.fields) == 0 {
			fmt.Fprintf(&b, " (|%s|)\n", n)
			continue
		}
		fmt.Fprintf(&b, " (|%s|", n)
		for i, f := range ci.fields {
			fmt.Fprintf(&b, " (|%s#%d| %s)", n, i, f)
		}
		b.WriteString(")\n")
	}
	b.WriteString(" (list (|list#0| LV))\n)))\n")
	b.WriteString("(declare-fun slen (Str) Int)\n(declare-fun sat (Str Int) Int)\n(declare-fun cat (Str Str) Str)\n(declare-fun unit (Int) Str)\n(declare-fun ssub (Str Int Int) Str)\n(declare-fun emptystr () Str)\n(assert (= (slen emptystr) 0))\n")
	return b.String()
}

type printer struct {
	c     *Ctx
	need  func(name, decl string)
	side  []*Term // side facts to assert
	seen  map[*Term]bool
	extra []string
}

func quoteName(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

func (p *printer) p(t *Term) string {
	var b strings.Builder
	p.w(&b, t)
	return b.String()
}

func (p *printer) app(b *strings.Builder, f string, as ...*Term) {
	b.WriteByte('(')
	b.WriteString(f)
	for _, a := range as {
		b.WriteByte(' ')
		p.w(b, a)
	}
	b.WriteByte(')')
}

func (p *printer) freeBound(t *Term) []*Term {
	if !t.bnd {
		return nil
	}
	free := map[*Term]bool{}
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if !t.bnd {
			return
		}
		if t.op == OBound {
			if !bound[t] {
				free[t] = true
			}
			return
		}
		if t.op == OForall || t.op == OFold || t.op == OList {
			nb := map[*Term]bool{t.args[0]: true}
			for k := range bound {
				nb[k] = true
			}
			for i, a := range t.args[1:] {
				if t.op == OForall || i == 0 {
					rec(a, nb)
				} else {
					rec(a, bound)
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a, bound)
		}
	}
	rec(t, map[*Term]bool{})
	var out []*Term
	for k := range free {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (p *printer) w(b *strings.Builder, t *Term) {
	c := p.c
	if !p.seen[t] {
		p.seen[t] = true
		if len(p.freeBound(t)) == 0 {
			if fs := c.facts[t]; fs != nil {
				p.side = append(p.side, fs...)
			}
			if t.sort == SStr {
				switch t.op {
				case OConcat, OUnit, OSub, OLit:
					if !(t.op == OConcat && len(t.args) == 0) {
						p.extra = append(p.extra, fmt.Sprintf("(assert (= (slen %s) %s))", p.p(t), p.p(c.Len(t))))
					}
				}
			}
			if t.op == OUF && t.s == "slen" {
				p.extra = append(p.extra, fmt.Sprintf("(assert (>= %s 0))", p.p(t)))
			}
			if t.op == OUF && t.s == "sat" {
				p.extra = append(p.extra, fmt.Sprintf("(assert (and (>= %s 0) (<= %s 255)))", p.p(t), p.p(t)))
			}
		}
	}
	switch t.op {
	case OVar:
		q := quoteName(t.s)
		p.need(q, fmt.Sprintf("(declare-fun %s () %s)", q, t.sort))
		b.WriteString(q)
	case OBound:
		b.WriteString(quoteName(t.s))
	case OLin:
		lit := func(x string) string {
			if strings.HasPrefix(x, "-") {
				return "(- " + x[1:] + ")"
			}
			return x
		}
		if len(t.args) == 0 {
			b.WriteString(lit(t.n.String()))
			return
		}
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coef[i].IsInt64() && t.coef[i].Int64() == 1 {
				p.w(b, a)
			} else {
				b.WriteString("(* " + lit(t.coef[i].String()) + " ")
				p.w(b, a)
				b.WriteByte(')')
			}
		}
		b.WriteString(" " + lit(t.n.String()) + ")")
	case OBoolC:
		if t.isTrue() {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case OAnd:
		p.app(b, "and", t.args...)
	case OOr:
		p.app(b, "or", t.args...)
	case ONot:
		p.app(b, "not", t.args...)
	case OLe0:
		p.app(b, "<=", t.args[0], c.Zero)
	case OEq0:
		p.app(b, "=", t.args[0], c.Zero)
	case OEq:
		p.app(b, "=", t.args...)
	case OIte:
		p.app(b, "ite", t.args...)
	case OSelect:
		p.app(b, "select", t.args...)
	case OStore:
		p.app(b, "store", t.args...)
	case OConstA:
		b.WriteString("((as const " + string(t.sort) + ") ")
		p.w(b, t.args[0])
		b.WriteByte(')')
	case OUF:
		q := quoteName(t.s)
		if t.s == "slen" || t.s == "sat" || t.s == "snoc" || t.s == "nsent" || t.s == "sentat" {
			q = t.s
			if q != "slen" && q != "sat" {
				p.need("request log", logTheory)
			}
		} else {
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			p.need(q, fmt.Sprintf("(declare-fun %s (%s) %s)", q, strings.Join(as, " "), t.sort))
		}
		if len(t.args) == 0 {
			b.WriteString(q)
		} else {
			p.app(b, q, t.args...)
		}
	case OCtor:
		if len(t.args) == 0 {
			b.WriteString(quoteName(t.s))
		} else {
			p.app(b, quoteName(t.s), t.args...)
		}
	case OSel:
		p.app(b, fmt.Sprintf("|%s#%s|", t.s, t.n), t.args...)
	case OIs:
		p.app(b, fmt.Sprintf("(_ is |%s|)", t.s), t.args...)
	case OForall:
		b.WriteString("(forall ((" + quoteName(t.args[0].s) + " " + string(t.args[0].sort) + ")) ")
		if len(t.args) > 2 {
			b.WriteString("(! ")
			p.w(b, t.args[1])
			for _, pt := range t.args[2:] {
				b.WriteString(" :pattern (")
				p.w(b, pt)
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			p.w(b, t.args[1])
		}
		b.WriteByte(')')
	case ODiv:
		b.WriteString("(div ")
		p.w(b, t.args[0])
		b.WriteString(" " + t.n.String() + ")")
	case OMod:
		b.WriteString("(mod ")
		p.w(b, t.args[0])
		b.WriteString(" " + t.n.String() + ")")
	case OConcat:
		if len(t.args) == 0 {
			b.WriteString("emptystr")
			return
		}
		for i, a := range t.args {
			if i < len(t.args)-1 {
				b.WriteString("(cat ")
			}
			p.w(b, a)
			if i < len(t.args)-1 {
				b.WriteByte(' ')
			}
		}
		b.WriteString(strings.Repeat(")", len(t.args)-1))
	case OUnit:
		p.app(b, "unit", t.args...)
	case OLit:
		q := fmt.Sprintf("lit%d", t.id)
		p.need(q, fmt.Sprintf("(declare-fun %s () Str)", q))
		b.WriteString(q)
	case OSub:
		p.app(b, "ssub", t.args...)
	case OFold, OList:
		fb := p.freeBound(t)
		so := "Str"
		if t.op == OList {
			so = "LV"
		}
		q := fmt.Sprintf("|fold%d|", t.id)
		var as []string
		for _, a := range fb {
			as = append(as, string(a.sort))
		}
		p.need(q, fmt.Sprintf("(declare-fun %s (%s) %s)", q, strings.Join(as, " "), so))
		if t.op == OList {
			b.WriteString("(list ")
		}
		if len(fb) == 0 {
			b.WriteString(q)
		} else {
			p.app(b, q, fb...)
		}
		if t.op == OList {
			b.WriteString(")")
		}
	default:
		panic("print op")
	}
}

func (s *Solver) send(x string) {
	if dbg := os.Getenv("GOVC_SMTLOG"); dbg != "" {
		f, _ := os.OpenFile(dbg, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		f.WriteString(x)
		f.Close()
	}
	io.WriteString(s.in, x)
}

// assertText renders a fact with its declarations and side facts.
func (s *Solver) assertText(t *Term, declared func(string) bool, note func(string)) string {
	var decls, asserts []string
	lits := []*Term{}
	p := &printer{c: s.c, seen: map[*Term]bool{}}
	p.need = func(n, d string) {
		if !declared(n) {
			note(n)
			decls = append(decls, d)
		}
	}
	queue := []*Term{t}
	done := map[*Term]bool{}
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		if done[q] {
			continue
		}
		done[q] = true
		asserts = append(asserts, "(assert "+p.p(q)+")")
		queue = append(queue, p.side...)
		p.side = nil
		asserts = append(asserts, p.extra...)
		p.extra = nil
	}
	_ = lits
	return strings.Join(decls, "\n") + "\n" + strings.Join(asserts, "\n") + "\n"
}

func (s *Solver) isDeclared(n string) bool {
	if s.base[n] {
		return true
	}
	for _, l := range s.levels {
		for _, d := range l.decls {
			if d == n {
				return true
			}
		}
	}
	return false
}

// collectLits gives pairwise distinctness for string literals.
func litAxioms(c *Ctx, ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var lits []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OLit {
			lits = append(lits, t)
		}
		if t.op == OFold || t.op == OList {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return lits
}

var timeoutFactor = func() int {
	if n, _ := strconv.Atoi(os.Getenv("GOVC_TO")); n > 0 {
		return n
	}
	return 4
}()

// Check tests satisfiability of pc && goal.
func (s *Solver) Check(pc []*Term, goal *Term, timeoutMs int, prove bool) int {
	timeoutMs *= timeoutFactor
	if extraBnd(pc, goal) {
		panic("bound variable in query")
	}
	if goal.isFalse() {
		return rUnsat
	}
	var kb strings.Builder
	for _, f := range pc {
		fmt.Fprintf(&kb, "%d,", f.id)
	}
	fmt.Fprintf(&kb, "|%d|%v", goal.id, prove)
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.CacheHits++
		return r
	}
	t0 := time.Now()
	r := s.check1(pc, goal, timeoutMs)
	be := "z3-new"
	if r == rUnknown && prove && !s.light {
		r = s.fallback(pc, goal)
		be = "fallback"
	}
	if w := os.Getenv("GOVC_DUMP"); w != "" && r != rUnsat && prove && strings.Contains(s.c.Str(goal), w) {
		s.dump(pc, goal, "/tmp/dump.smt2")
		fmt.Fprintln(os.Stderr, "DUMPED", s.c.Str(goal))
	}
	d := time.Since(t0)
	s.Time += d
	if d > 1*time.Second && os.Getenv("GOVC_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "SLOW %v r=%d prove=%v goal=%s\n", d, r, prove, s.c.Str(goal))
		s.dump(pc, goal, "/tmp/slow.smt2")
	}
	s.Queries++
	atomic.AddInt64(&totalQueries, 1)
	if r == rUnsat && prove {
		s.ByBackend[be]++
	}
	if r == rUnknown {
		s.Unknown++
	}
	if r != rUnknown || !s.light {
		s.cache[key] = r
	}
	return r
}

func (s *Solver) check1(pc []*Term, goal *Term, timeoutMs int) int {
	if s.cmd != nil && s.nCtors != len(s.c.ctorL) {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	var b strings.Builder
	// common prefix
	n := 0
	for n < len(s.levels) && n < len(pc) && s.levels[n].fact == pc[n] {
		n++
	}
	if k := len(s.levels) - n; k > 0 {
		fmt.Fprintf(&b, "(pop %d)\n", k)
		s.levels = s.levels[:n]
	}
	for _, f := range pc[n:] {
		s.levels = append(s.levels, level{fact: f})
		l := &s.levels[len(s.levels)-1]
		b.WriteString("(push 1)\n")
		b.WriteString(s.assertText(f, s.isDeclared, func(x string) { l.decls = append(l.decls, x) }))
	}
	if timeoutMs != s.timeout {
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMs)
		s.timeout = timeoutMs
	}
	b.WriteString("(push 1)\n")
	s.levels = append(s.levels, level{fact: goal})
	l := &s.levels[len(s.levels)-1]
	b.WriteString(s.assertText(goal, s.isDeclared, func(x string) { l.decls = append(l.decls, x) }))
	if lits := litAxioms(s.c, append(append([]*Term{}, pc...), goal)); len(lits) > 1 {
		b.WriteString("(assert (distinct")
		p := &printer{c: s.c, seen: map[*Term]bool{}, need: func(n, d string) {
			if !s.isDeclared(n) {
				l.decls = append(l.decls, n)
				b2 := d
				_ = b2
			}
		}}
		for _, x := range lits {
			b.WriteString(" " + p.p(x))
		}
		b.WriteString("))\n")
	}
	b.WriteString("(check-sat)\n(pop 1)\n(echo \"done\")\n")
	s.send(b.String())
	s.levels = s.levels[:len(s.levels)-1]
	res := rUnknown
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return rUnknown
		}
		line = strings.TrimSpace(line)
		switch line {
		case "unsat":
			res = rUnsat
		case "sat":
			res = rSat
		case "unknown", "timeout":
			res = rUnknown
		case "done", "\"done\"":
			return res
		default:
			if strings.Contains(line, "out of memory") {
				s.stop()
				return rUnknown
			}
			if strings.Contains(line, "error") {
				s.dump(pc, goal, "/tmp/govc_err.smt2")
				panic(toolErr{"solver error: " + line + " (dumped /tmp/govc_err.smt2)"})
			}
		}
	}
}

// Script renders a stand-alone query.
func (s *Solver) Script(pc []*Term, goal *Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(s.c.prelude())
	decl := map[string]bool{}
	all := append(append([]*Term{}, pc...), goal)
	for _, f := range all {
		b.WriteString(s.assertText(f, func(n string) bool { return decl[n] }, func(n string) { decl[n] = true }))
	}
	if lits := litAxioms(s.c, all); len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for _, x := range lits {
			fmt.Fprintf(&b, " lit%d", x.id)
		}
		b.WriteString("))\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (s *Solver) dump(pc []*Term, goal *Term, path string) {
	os.WriteFile(path, []byte(s.Script(pc, goal)), 0644)
}

func (s *Solver) fallback(pc []*Term, goal *Term) int {
	s.Fallbacks++
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		return rUnknown
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "q.smt2")
	s.dump(pc, goal, f)
	run := func(name string, args ...string) int {
		out, _ := exec.Command(name, append(args, f)...).CombinedOutput()
		for _, l := range strings.Split(string(out), "\n") {
			switch strings.TrimSpace(l) {
			case "unsat":
				return rUnsat
			case "sat":
				return rSat
			}
		}
		return rUnknown
	}
	if r := run("cvc5", "--tlimit=4000"); r == rUnsat {
		return r
	}
	if r := run("z3-new", "-T:4"); r == rUnsat {
		return r
	}
	return rUnknown
}

type toolErr struct{ msg string }

func extraBnd(pc []*Term, g *Term) bool {
	if g.bnd {
		return true
	}
	for _, f := range pc {
		if f.bnd {
			return true
		}
	}
	return false
}
