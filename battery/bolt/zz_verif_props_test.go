package golangNeo4jBoltDriver

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

func vfGuard(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
	}()
	f()
}

// vfPair is a connection to a new server in memory.
func vfPair() (*boltConn, *vfConn) {
	f := newVfConn()
	c := createBoltConn("bolt://fake")
	c.conn = f
	return c, f
}

func vfRecs(n, w int) (out [][]interface{}) {
	for i := 0; i < n; i++ {
		r := []interface{}{}
		for j := 0; j < w; j++ {
			r = append(r, int64(i*100+j))
		}
		out = append(out, r)
	}
	return
}

func (s *vfServer) answer(a *vfAns) *vfAns {
	if a.cols == nil {
		a.cols = []interface{}{"a", "b"}
	}
	s.answers[a.q] = a
	return a
}

func vfMeta(k string, v interface{}) map[string]interface{} { return map[string]interface{}{k: v} }

func vfIdle(t *testing.T, what string, c *boltConn, f *vfConn) {
	if f.overread > 0 {
		t.Errorf("%s: waited for a response that is not owed", what)
	}
	if len(f.bad) > 0 {
		t.Errorf("%s: protocol violation: %v", what, f.bad)
	}
	if len(f.out) > 0 || f.failed || f.cur != nil {
		t.Errorf("%s: the connection is not ready afterwards (%d bytes outstanding, failed %v)", what, len(f.out), f.failed)
	}
	f.answer(&vfAns{q: "after", summary: vfMeta("after", true)})
	r, err := c.ExecNeo("after", nil)
	if err != nil {
		t.Errorf("%s: the next query fails: %v", what, vsInner(err))
	} else if !vsEqual(r.Metadata(), vfMeta("after", true)) {
		t.Errorf("%s: the next query gets %v", what, r.Metadata())
	}
}

// vfOps are the operations that meet the failure of query "Q" (or of BEGIN,
// COMMIT, ROLLBACK); what remains open is closed before the last check.
func vfOps(c *boltConn) map[string]func() error {
	p := map[string]interface{}{"x": int64(1)}
	return map[string]func() error{
		"conn.ExecNeo":  func() error { _, err := c.ExecNeo("Q", p); return err },
		"conn.QueryNeo": func() error { r, err := c.QueryNeo("Q", p); return vfDrain(r, err) },
		"conn.QueryNeo and Close": func() error {
			r, err := c.QueryNeo("Q", p)
			if err != nil {
				return err
			}
			return r.Close()
		},
		"conn.QueryNeoAll": func() error { _, _, _, err := c.QueryNeoAll("Q", p); return err },
		"conn.Exec":        func() error { _, err := c.Exec("Q", nil); return err },
		"stmt.ExecNeo": func() error {
			s, err := c.PrepareNeo("Q")
			if err != nil {
				return err
			}
			defer s.Close()
			_, err = s.ExecNeo(p)
			return err
		},
		"stmt.QueryNeo": func() error {
			s, err := c.PrepareNeo("Q")
			if err != nil {
				return err
			}
			defer s.Close()
			r, err := s.QueryNeo(p)
			return vfDrain(r, err)
		},
		"stmt.QueryNeo unread": func() error {
			s, err := c.PrepareNeo("Q")
			if err != nil {
				return err
			}
			if _, err := s.QueryNeo(p); err != nil {
				s.Close()
				return err
			}
			return s.Close()
		},
		"conn.ExecPipeline first":  func() error { _, err := c.ExecPipeline([]string{"Q", "O", "O"}, p, p, p); return err },
		"conn.ExecPipeline middle": func() error { _, err := c.ExecPipeline([]string{"O", "Q", "O"}, p, p, p); return err },
		"conn.ExecPipeline last":   func() error { _, err := c.ExecPipeline([]string{"O", "O", "Q"}, p, p, p); return err },
		"conn.QueryPipeline first": func() error {
			r, err := c.QueryPipeline([]string{"Q", "O", "O"}, p, p, p)
			return vfDrainPipe(r, err)
		},
		"conn.QueryPipeline middle": func() error {
			r, err := c.QueryPipeline([]string{"O", "Q", "O"}, p, p, p)
			return vfDrainPipe(r, err)
		},
		"conn.QueryPipeline last": func() error {
			r, err := c.QueryPipeline([]string{"O", "O", "Q"}, p, p, p)
			return vfDrainPipe(r, err)
		},
		"conn.QueryPipeline closed": func() error {
			r, err := c.QueryPipeline([]string{"O", "Q", "O"}, p, p, p)
			if err != nil {
				return err
			}
			return r.Close()
		},
		"conn.QueryPipeline closed late": func() error {
			r, err := c.QueryPipeline([]string{"O", "O", "Q"}, p, p, p)
			for i := 0; err == nil && i < 4; i++ {
				var n PipelineRows
				if _, _, n, err = r.NextPipeline(); n != nil {
					r = n
				}
			}
			if err != nil {
				return err
			}
			return r.Close()
		},
	}
}

func vfDrain(r Rows, err error) error {
	if err != nil {
		return err
	}
	for err == nil {
		_, _, err = r.NextNeo()
	}
	if e := r.Close(); err == io.EOF {
		err = e
	}
	return err
}

func vfDrainPipe(r PipelineRows, err error) error {
	if err != nil {
		return err
	}
	for i := 0; err == nil && i < 100; i++ {
		var n PipelineRows
		if _, _, n, err = r.NextPipeline(); n != nil {
			r = n
		}
	}
	if e := r.Close(); err == io.EOF {
		err = e
	}
	return err
}

func TestVerifC08(t *testing.T) {
	vsSessions(t, "C08")
	vfLong(t)
	for _, pull := range []bool{false, true} {
		for name := range vfOps(nil) {
			c, f := vfPair()
			vfFailing(f, pull)
			vfGuard(t, name, func() {
				vfOps(c)[name]()
				vfIdle(t, name, c, f)
			})
		}
	}
}

// vfLong: failures and early closes in long pipelines and long results, after
// which the connection is ready for the next query.
func vfLong(t *testing.T) {
	n := 0
	sizes := []int{1, 2, 5, 7, 8, 9, 10, 15, 16, 17, 31, 33, 64, 130, 260}
	p := map[string]interface{}{"x": int64(1)}
	for _, size := range sizes {
		for _, at := range []int{-1, 0, 1, size / 2, size - 1} {
			if at >= size {
				continue
			}
			for _, pull := range []bool{false, true} {
				var qs []string
				var ps []map[string]interface{}
				for i := 0; i < size; i++ {
					qs, ps = append(qs, "O"), append(ps, p)
				}
				if at >= 0 {
					qs[at] = "Q"
				}
				ops := map[string]func(c *boltConn) error{
					"conn.ExecPipeline": func(c *boltConn) error { _, err := c.ExecPipeline(qs, ps...); return err },
					"conn.QueryPipeline": func(c *boltConn) error {
						r, err := c.QueryPipeline(qs, ps...)
						if err != nil {
							return err
						}
						for err == nil {
							var nx PipelineRows
							if _, _, nx, err = r.NextPipeline(); nx != nil {
								r = nx
							}
						}
						if e := r.Close(); err == io.EOF {
							err = e
						}
						return err
					},
					"conn.QueryPipeline closed": func(c *boltConn) error {
						r, err := c.QueryPipeline(qs, ps...)
						if err != nil {
							return err
						}
						return r.Close()
					},
					"stmt.QueryPipeline closed after a while": func(c *boltConn) error {
						s, err := c.PreparePipeline(qs...)
						if err != nil {
							return err
						}
						defer s.Close()
						r, err := s.QueryPipeline(ps...)
						for i := 0; err == nil && i < size; i++ {
							var nx PipelineRows
							if _, _, nx, err = r.NextPipeline(); nx != nil {
								r = nx
							}
						}
						if e := s.Close(); err == nil || err == io.EOF {
							err = e
						}
						return err
					},
				}
				for name, op := range ops {
					n++
					what := fmt.Sprintf("%s of %d queries, failing at %d (pull %v)", name, size, at, pull)
					c, f := vfPair()
					vfFailing(f, pull)
					vfGuard(t, what, func() {
						if err := op(c); (err != nil) != (at >= 0) {
							t.Errorf("%s: error %v", what, err)
						}
						vfIdle(t, what, c, f)
					})
				}
			}
		}
	}
	for _, size := range []int{0, 1, 7, 8, 15, 16, 17, 100, 1000, 5000} {
		for _, read := range []int{0, 1, size / 2, size, size + 1} {
			n++
			what := fmt.Sprintf("result of %d records, %d read", size, read)
			c, f := vfPair()
			f.answer(&vfAns{q: "L", recs: vfRecs(size, 1), summary: vfMeta("l", int64(1))})
			vfGuard(t, what, func() {
				r, err := c.QueryNeo("L", nil)
				if err != nil {
					t.Errorf("%s: %v", what, err)
					return
				}
				for i := 0; i < read; i++ {
					if _, _, err := r.NextNeo(); err != nil && err != io.EOF {
						t.Errorf("%s: %v", what, err)
					}
				}
				if err := r.Close(); err != nil {
					t.Errorf("%s: close: %v", what, err)
				}
				vfIdle(t, what, c, f)
			})
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func vfFailing(f *vfConn, pull bool) map[string]interface{} {
	f.answer(&vfAns{q: "O", recs: vfRecs(2, 2), summary: vfMeta("o", int64(1))})
	a := f.answer(&vfAns{q: "Q", recs: vfRecs(3, 2)})
	m := map[string]interface{}{"code": "Neo.ClientError", "message": "no " + fmt.Sprint(pull), "more": []interface{}{int64(1), nil, vfMeta("x", 1.5)}}
	if pull {
		a.pullFail = m
	} else {
		a.runFail = m
	}
	return m
}

func TestVerifC09(t *testing.T) {
	vsSessions(t, "C09")
	vfLong(t)
	n := 0
	for _, pull := range []bool{false, true} {
		for name := range vfOps(nil) {
			for _, ackFail := range []int{0, 1} {
				for _, tx := range []bool{false, true} {
					n++
					c, f := vfPair()
					m := vfFailing(f, pull)
					f.ackFail = ackFail
					what := fmt.Sprintf("%s, pull %v, failed acknowledgements %d, in a transaction %v", name, pull, ackFail, tx)
					vfGuard(t, what, func() {
						if tx {
							if _, err := c.Begin(); err != nil {
								t.Errorf("%s: Begin: %v", what, vsInner(err))
							}
						}
						err := vfOps(c)[name]()
						fm, ok := vsInner(err).(messages.FailureMessage)
						if !ok || !vsEqual(fm.Metadata, m) {
							t.Errorf("%s: the innermost error is %#v instead of the failure %v", what, vsInner(err), m)
						}
						reset := 0
						for _, r := range f.reqs {
							if r.sig == vfRESET {
								reset++
							}
						}
						if reset != ackFail {
							t.Errorf("%s: %d resets", what, reset)
						}
						vfIdle(t, what, c, f)
					})
				}
			}
		}
	}
	// the transaction statements
	for _, q := range []string{"BEGIN", "COMMIT", "ROLLBACK"} {
		for _, pull := range []bool{false, true} {
			n++
			what := fmt.Sprintf("%s, pull %v", q, pull)
			vfGuard(t, what, func() {
				c, f := vfPair()
				m := vfMeta("code", "tx")
				a := f.answer(&vfAns{q: q})
				if pull {
					a.pullFail = m
				} else {
					a.runFail = m
				}
				tx, err := c.Begin()
				if q == "COMMIT" && err == nil {
					err = tx.Commit()
				} else if q == "ROLLBACK" && err == nil {
					err = tx.Rollback()
				}
				fm, ok := vsInner(err).(messages.FailureMessage)
				if !ok || !vsEqual(fm.Metadata, m) {
					t.Errorf("%s: the innermost error is %#v instead of the failure %v", what, vsInner(err), m)
				}
				vfIdle(t, what, c, f)
			})
		}
	}
	// neither the acknowledgement nor the reset works: an error, and nothing more
	junk := [][]byte{nil, vfChunks(vfPack(vfS{vfRECORD, []interface{}{[]interface{}{}}}), 0), vfChunks(vfPack(int64(5)), 0), vfChunks([]byte{0xC8}, 0)}
	for name := range vfOps(nil) {
		for i, j := range junk {
			n++
			what := fmt.Sprintf("%s, failure not acknowledged (%d)", name, i)
			vfGuard(t, what, func() {
				c, f := vfPair()
				vfFailing(f, false)
				f.ackFail, f.rstFail, f.ackJunk = 1, 1, j
				if err := vfOps(c)[name](); err == nil {
					t.Errorf("%s: no error", what)
				}
				if f.overread > 0 {
					t.Errorf("%s: waited for a response that is not owed", what)
				}
				nreq := len(f.reqs)
				if i != 3 { // the session is lost
					if _, err := c.ExecNeo("after", nil); err == nil {
						t.Errorf("%s: the lost session is used again", what)
					}
					if len(f.reqs) != nreq {
						t.Errorf("%s: requests on the lost session: %v", what, f.reqs[nreq:])
					}
				}
				c.Close()
			})
		}
	}
	fmt.Println("VERIF-CASES", n)
}

type vfStep struct {
	name string
	net  bool
	f    func() error
}

// vfScenarios are histories with every kind of exchange.
func vfScenarios(c *boltConn) map[string][]vfStep {
	p := map[string]interface{}{"x": int64(300), "y": "text"}
	var st Stmt
	var pst PipelineStmt
	var rows Rows
	var pr PipelineRows
	var tx driver.Tx
	next := func() error {
		_, _, err := rows.NextNeo()
		if err == io.EOF {
			return nil
		}
		return err
	}
	nextP := func() error {
		_, _, n, err := pr.NextPipeline()
		if !vsNilIface(n) {
			pr = n
		}
		if err == io.EOF {
			return nil
		}
		return err
	}
	exec := vfStep{"ExecNeo", true, func() error { _, err := c.ExecNeo("O", p); return err }}
	prep := vfStep{"PrepareNeo", false, func() (err error) { st, err = c.PrepareNeo("O"); return }}
	prepP := vfStep{"PreparePipeline", false, func() (err error) { pst, err = c.PreparePipeline("O", "P", "O"); return }}
	query := vfStep{"QueryNeo", true, func() (err error) { rows, err = c.QueryNeo("O", p); return }}
	squery := vfStep{"stmt.QueryNeo", true, func() (err error) { rows, err = st.QueryNeo(p); return }}
	sexec := vfStep{"stmt.ExecNeo", true, func() (err error) { _, err = st.ExecNeo(p); return }}
	nx := vfStep{"NextNeo", false, next}
	nxp := vfStep{"NextPipeline", false, nextP}
	rclose := vfStep{"rows.Close", false, func() error { return rows.Close() }}
	prclose := vfStep{"pipeline rows.Close", false, func() error { return pr.Close() }}
	sclose := vfStep{"stmt.Close", false, func() error { return st.Close() }}
	psclose := vfStep{"pipeline stmt.Close", false, func() error { return pst.Close() }}
	cclose := vfStep{"conn.Close", false, func() error { return c.Close() }}
	begin := vfStep{"Begin", true, func() (err error) { tx, err = c.Begin(); return }}
	commit := vfStep{"Commit", true, func() error { return tx.Commit() }}
	rollback := vfStep{"Rollback", true, func() error { return tx.Rollback() }}
	sqlNext := vfStep{"Next", false, func() error {
		if err := rows.(driver.Rows).Next(make([]driver.Value, 2)); err != io.EOF {
			return err
		}
		return nil
	}}
	all := vfStep{"All", false, func() error { _, _, err := rows.All(); return err }}
	qall := vfStep{"QueryNeoAll", true, func() error { _, _, _, err := c.QueryNeoAll("O", p); return err }}
	fexec := vfStep{"failing ExecNeo", true, func() error {
		_, err := c.ExecNeo("Q", p)
		if _, ok := vsInner(err).(messages.FailureMessage); ok {
			return nil
		}
		return err
	}}
	epipe := vfStep{"ExecPipeline", true, func() error { _, err := c.ExecPipeline([]string{"O", "P", "O"}, p, nil, p); return err }}
	qpipe := vfStep{"QueryPipeline", true, func() (err error) { pr, err = c.QueryPipeline([]string{"O", "P"}, p, nil); return }}
	sqpipe := vfStep{"stmt.QueryPipeline", true, func() (err error) { pr, err = pst.QueryPipeline(p, nil, p); return }}
	sepipe := vfStep{"stmt.ExecPipeline", true, func() error { _, err := pst.ExecPipeline(p, nil, p); return err }}
	return map[string][]vfStep{
		"exec":            {exec, exec, cclose},
		"rows":            {query, nx, nx, nx, nx, rclose, exec, cclose},
		"rows, sql":       {query, sqlNext, sqlNext, sqlNext, rclose, exec, cclose},
		"rows, closed":    {query, nx, rclose, exec, cclose},
		"all":             {query, all, rclose, qall, exec, cclose},
		"prepared":        {prep, squery, nx, nx, nx, rclose, sexec, sclose, exec, cclose},
		"prepared, all":   {prep, squery, all, sclose, exec, cclose},
		"discard":         {prep, squery, rclose, sexec, sclose, exec, cclose},
		"closed stmt":     {prep, squery, nx, sclose, exec, cclose},
		"transaction":     {begin, exec, commit, exec, cclose},
		"rolled back":     {begin, query, rollback, exec, cclose},
		"conn closed":     {begin, prep, squery, nx, cclose},
		"pipeline":        {epipe, qpipe, nxp, nxp, nxp, nxp, nxp, nxp, nxp, prclose, exec, cclose},
		"pipeline closed": {qpipe, nxp, nxp, nxp, nxp, prclose, exec, cclose},
		"pipeline stmt":   {prepP, sepipe, sqpipe, nxp, psclose, exec, cclose},
		"failure":         {fexec, exec, cclose},
	}
}

func vfFaultPair() (*boltConn, *vfConn) {
	c, f := vfPair()
	f.answer(&vfAns{q: "O", recs: vfRecs(2, 2), summary: vfMeta("o", int64(1))})
	f.answer(&vfAns{q: "P", recs: vfRecs(1, 2), summary: vfMeta("p", int64(2))})
	f.answer(&vfAns{q: "Q", runFail: vfMeta("code", "x")})
	return c, f
}

func TestVerifC10(t *testing.T) {
	vsSessions(t, "C10")
	n := 0
	kinds := []struct {
		name      string
		err       error
		transient bool
	}{{"reset", errors.New("connection reset by peer"), false}, {"end of stream", io.EOF, false}, {"timeout", vfTimeout{}, true}}
	for name := range vfScenarios(nil) {
		c, f := vfFaultPair()
		for _, s := range vfScenarios(c)[name] {
			if err := s.f(); err != nil {
				t.Errorf("%s: %s fails without a fault: %v", name, s.name, vsInner(err))
				break
			}
		}
		total := [2]int{f.nr, f.nw}
		for dir := 0; dir < 2; dir++ {
			for at := 0; at < total[dir]; at++ {
				for _, k := range kinds {
					for _, split := range []int{0, 1} {
						n++
						if dir == 1 && (k.err == io.EOF || split == 1) || t.Failed() {
							continue
						}
						c, f := vfFaultPair()
						f.fault = &vfFault{write: dir == 1, at: at, err: k.err, transient: k.transient}
						if split > 0 {
							f.split = func() int { return split }
						}
						what := fmt.Sprintf("%s: %s at byte %d of the bytes %s", name, k.name, at, []string{"read", "written"}[dir])
						vfFaulty(t, what, vfScenarios(c)[name], c, f)
					}
				}
			}
		}
		for arm := 0; arm < 40 && !t.Failed(); arm++ {
			n++
			c, f := vfFaultPair()
			f.armAfter = arm
			what := fmt.Sprintf("%s: setting deadline %d fails", name, arm)
			vfFaulty(t, what, vfScenarios(c)[name], c, f)
		}
	}
	if s := sprintByteHex([]byte{0xAB}); !strings.Contains(s, "ab") {
		t.Errorf("sprintByteHex of one byte: %q", s)
	}
	fmt.Println("VERIF-CASES", n)
}

func vfFaulty(t *testing.T, what string, steps []vfStep, c *boltConn, f *vfConn) {
	vfGuard(t, what, func() {
		broken := false
		for _, s := range steps {
			before := f.broke()
			var err error
			skip := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						// a handle that was never returned
						if skip = broken; !skip {
							panic(r)
						}
					}
				}()
				err = s.f()
			}()
			if skip {
				continue
			}
			switch {
			case !before && f.broke():
				broken = true
				if err == nil {
					t.Errorf("%s: %s reports success although its exchange failed", what, s.name)
				} else if vsInner(err) != driver.ErrBadConn {
					t.Errorf("%s: the innermost error of %s is %#v instead of the bad-connection error", what, s.name, vsInner(err))
				}
			case broken && s.net && err == nil:
				t.Errorf("%s: %s succeeds on the broken connection", what, s.name)
			case !broken && err != nil:
				t.Errorf("%s: %s fails before the fault: %v", what, s.name, vsInner(err))
			}
		}
		if f.overread > 0 && !broken {
			t.Errorf("%s: waited for a response that is not owed", what)
		}
		// the connection can still be closed, and is useless
		c.Close()
		if f.closed == 0 {
			t.Errorf("%s: the socket stays open after Close", what)
		}
		if _, err := c.ExecNeo("O", nil); err == nil {
			t.Errorf("%s: the closed connection works", what)
		}
	})
}

func TestVerifC11(t *testing.T) {
	vsSessions(t, "C11")
	n := 0
	arg := []driver.Value{}
	calls := func(c *boltConn) map[string]func() error {
		return map[string]func() error{
			"PrepareNeo":      func() error { _, err := c.PrepareNeo("O"); return err },
			"Prepare":         func() error { _, err := c.Prepare("O"); return err },
			"PreparePipeline": func() error { _, err := c.PreparePipeline("O"); return err },
			"QueryNeo":        func() error { _, err := c.QueryNeo("O", nil); return err },
			"QueryNeoAll":     func() error { _, _, _, err := c.QueryNeoAll("O", nil); return err },
			"Query":           func() error { _, err := c.Query("O", arg); return err },
			"ExecNeo":         func() error { _, err := c.ExecNeo("O", nil); return err },
			"Exec":            func() error { _, err := c.Exec("O", arg); return err },
			"QueryPipeline":   func() error { _, err := c.QueryPipeline([]string{"O"}, nil); return err },
			"ExecPipeline":    func() error { _, err := c.ExecPipeline([]string{"O"}, nil); return err },
			"Begin":           func() error { _, err := c.Begin(); return err },
		}
	}
	busy := map[string]func(c *boltConn) (func() error, error){
		"an open statement": func(c *boltConn) (func() error, error) {
			s, err := c.PrepareNeo("O")
			if err != nil {
				return nil, err
			}
			return s.Close, nil
		},
		"an open pipeline statement": func(c *boltConn) (func() error, error) {
			s, err := c.PreparePipeline("O", "O")
			if err != nil {
				return nil, err
			}
			return s.Close, nil
		},
		"rows of a statement": func(c *boltConn) (func() error, error) {
			s, err := c.PrepareNeo("O")
			if err != nil {
				return nil, err
			}
			_, err = s.QueryNeo(nil)
			return s.Close, err
		},
		"rows of a query": func(c *boltConn) (func() error, error) {
			r, err := c.QueryNeo("O", nil)
			if err != nil {
				return nil, err
			}
			return r.Close, nil
		},
		"rows of a pipeline": func(c *boltConn) (func() error, error) {
			r, err := c.QueryPipeline([]string{"O", "P"}, nil, nil)
			if err != nil {
				return nil, err
			}
			return r.Close, nil
		},
		"a closed connection": func(c *boltConn) (func() error, error) { return nil, c.Close() },
	}
	for what, open := range busy {
		for name := range calls(nil) {
			n++
			c, f := vfFaultPair()
			vfGuard(t, name+" with "+what, func() {
				cl, err := open(c)
				if err != nil {
					t.Errorf("%s: %v", what, vsInner(err))
					return
				}
				moved := f.nr + f.nw
				if err := calls(c)[name](); err == nil {
					t.Errorf("%s is not refused with %s", name, what)
				}
				if f.nr+f.nw != moved {
					t.Errorf("%s with %s: there was traffic", name, what)
				}
				if cl == nil {
					if err := c.Close(); err != nil {
						t.Errorf("closing again: %v", err)
					}
					return
				}
				for i := 0; i < 2; i++ {
					if err := cl(); err != nil {
						t.Errorf("%s: close %d after a refused %s: %v", what, i+1, name, vsInner(err))
					}
				}
				if err := calls(c)[name](); err != nil {
					t.Errorf("%s is refused after closing %s: %v", name, what, vsInner(err))
				}
			})
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC12(t *testing.T) {
	vsSessions(t, "C12")
	junk := []interface{}{vfS{vfRECORD, []interface{}{[]interface{}{}}}, int64(5), vfS{vfIGNORED, nil}}
	n := 0
	for _, q := range []string{"BEGIN", "COMMIT", "ROLLBACK"} {
		for _, sig := range []byte{vfRUN, vfPULL} {
			for _, j := range junk {
				n++
				what := fmt.Sprintf("%s, message %x answered with %v", q, sig, j)
				vfGuard(t, what, func() {
					c, f := vfPair()
					last := ""
					f.replyFor = func(r vfReq) []byte {
						if r.sig == vfRUN {
							last, _ = r.f[0].(string)
						}
						if last == q && r.sig == sig {
							f.cur = nil
							return vfChunks(vfPack(j), 0)
						}
						return nil
					}
					tx, err := c.Begin()
					if q == "COMMIT" && err == nil {
						err = tx.Commit()
					} else if q == "ROLLBACK" && err == nil {
						err = tx.Rollback()
					}
					if err == nil {
						t.Errorf("%s: success without the server's confirmation", what)
					}
				})
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC13(t *testing.T) {
	vsSessions(t, "C13")
	n := 0
	node := vfS{0x4E, []interface{}{int64(5), []interface{}{"L"}, vfMeta("k", "v")}}
	values := []interface{}{nil, true, false, int64(0), int64(-17), int64(1) << 40, 1.5, "", strings.Repeat("s", 70000), []interface{}{}, []interface{}{nil, []interface{}{int64(1)}},
		map[string]interface{}{}, vfMeta("a", []interface{}{"x"})}
	for _, wd := range []int{0, 1, 2, 15, 16, 300} {
		for _, nrec := range []int{0, 1, 2, 17, 400} {
			n++
			rec := []interface{}{}
			for i := 0; i < wd; i++ {
				rec = append(rec, values[(i*7+wd)%len(values)])
			}
			c, f := vfPair()
			a := f.answer(&vfAns{q: "O", summary: vfMeta("s", int64(n))})
			for i := 0; i < nrec; i++ {
				r := append([]interface{}{}, rec...)
				if wd > 0 {
					r[i%wd] = int64(i)
				}
				a.recs = append(a.recs, r)
			}
			what := fmt.Sprintf("%d records of %d fields", nrec, wd)
			vfGuard(t, what, func() {
				got, meta, sum, err := c.QueryNeoAll("O", nil)
				if err != nil || len(got) != nrec || !vsEqual(meta, a.runMeta()) || !vsEqual(sum, a.summary) {
					t.Errorf("%s: %d records, %v, %v, %v", what, len(got), meta, sum, vsInner(err))
					return
				}
				for i := range got {
					if !reflect.DeepEqual(got[i], a.recs[i]) {
						t.Errorf("%s: record %d is %.300v", what, i, fmt.Sprint(got[i]))
						return
					}
				}
			})
		}
	}
	// graph structures arrive as such
	c, f := vfPair()
	f.answer(&vfAns{q: "O", recs: [][]interface{}{{node, int64(1)}}})
	if got, _, _, err := c.QueryNeoAll("O", nil); err != nil || !reflect.DeepEqual(got, [][]interface{}{{graph.Node{NodeIdentity: 5, Labels: []string{"L"}, Properties: vfMeta("k", "v")}, int64(1)}}) {
		t.Errorf("a node arrives as %#v, %v", got, vsInner(err))
	}
	// a malformed or unexpected message is neither a row nor the end of the rows
	bad := map[string][]byte{
		"a truncated integer":  vfChunks([]byte{0xB1, 0x71, 0x91, 0xC8}, 0),
		"a truncated string":   vfChunks([]byte{0xB1, 0x71, 0x91, 0x85, 'a'}, 0),
		"a truncated list":     vfChunks([]byte{0xB1, 0x71, 0x92, 0x01}, 0),
		"an empty message":     {0, 0},
		"a truncated float":    vfChunks([]byte{0xB1, 0x71, 0x91, 0xC1, 1, 2, 3}, 0),
		"an unknown structure": vfChunks([]byte{0xB1, 0x72, 0x91, 0x01}, 0),
		"a bare integer":       vfChunks([]byte{0x05}, 0),
		"an ignored message":   vfChunks([]byte{0xB0, 0x7E}, 0),
		"a record of no list":  vfChunks([]byte{0xB1, 0x71, 0x05}, 0),
		"a success of no map":  vfChunks([]byte{0xB1, 0x70, 0x05}, 0),
	}
	for what, b := range bad {
		for good := 0; good < 3; good++ {
			for api := 0; api < 4; api++ {
				n++
				c, f := vfPair()
				f.answer(&vfAns{q: "O"})
				f.replyFor = func(r vfReq) []byte {
					if r.sig != vfPULL {
						return nil
					}
					f.cur = nil
					var out []byte
					for _, x := range vfRecs(good, 2) {
						out = append(out, vfChunks(vfPack(vfS{vfRECORD, []interface{}{x}}), 0)...)
					}
					out = append(out, b...)
					return append(out, vfChunks(vfPack(vfS{vfSUCCESS, []interface{}{map[string]interface{}{}}}), 0)...)
				}
				vfGuard(t, what, func() {
					if api == 3 {
						if got, _, _, err := c.QueryNeoAll("O", nil); err == nil {
							t.Errorf("%s among the records: QueryNeoAll returns %d rows and no error", what, len(got))
						}
						return
					}
					rows, err := c.QueryNeo("O", nil)
					if err != nil {
						t.Errorf("%s: %v", what, vsInner(err))
						return
					}
					if api == 2 {
						if got, _, err := rows.All(); err == nil {
							t.Errorf("%s among the records: All returns %d rows and no error", what, len(got))
						}
						return
					}
					for i := 0; i <= good; i++ {
						if api == 0 {
							var row []interface{}
							if row, _, err = rows.NextNeo(); err == nil && (i == good || !reflect.DeepEqual(row, vfRecs(good, 2)[i])) {
								t.Errorf("%s after %d records: NextNeo returns %v", what, good, row)
							}
						} else {
							err = rows.(driver.Rows).Next(make([]driver.Value, 2))
						}
						if i < good && err != nil || i == good && (err == nil || err == io.EOF) {
							t.Errorf("%s after %d records: call %d of api %d returns %v", what, good, i, api, vsInner(err))
						}
					}
				})
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}

// vfPipes: what pipelines of up to three queries send, with repeated queries and
// parameters, and that the arguments of the caller stay as they are.
func vfPipes(t *testing.T) {
	type one struct {
		q string
		p map[string]interface{}
	}
	var ones []one
	for _, q := range []string{"A", "B"} {
		ones = append(ones, one{q, nil}, one{q, map[string]interface{}{}}, one{q, vfMeta("p", int64(1))}, one{q, map[string]interface{}{"p": int64(2), "r": []interface{}{nil, "x"}}})
	}
	n := 0
	try := func(what string, qs []string, ps []map[string]interface{}, stmt, query bool) {
		n++
		c, f := vfPair()
		f.answer(&vfAns{q: "A", recs: vfRecs(1, 1), summary: vfMeta("a", int64(1))})
		f.answer(&vfAns{q: "B", recs: vfRecs(2, 1), summary: vfMeta("b", int64(2))})
		qs0 := append([]string{}, qs...)
		var ps0 []map[string]interface{}
		for _, p := range ps {
			var d map[string]interface{}
			if p != nil {
				d = map[string]interface{}{}
				for k, v := range p {
					d[k] = v
				}
			}
			ps0 = append(ps0, d)
		}
		vfGuard(t, what, func() {
			var err error
			var rows PipelineRows
			var close []func() error
			switch {
			case stmt:
				var s PipelineStmt
				if s, err = c.PreparePipeline(qs...); err != nil {
					t.Errorf("%s: %v", what, vsInner(err))
					return
				}
				close = append(close, s.Close)
				if query {
					rows, err = s.QueryPipeline(ps...)
				} else {
					_, err = s.ExecPipeline(ps...)
				}
			case query:
				rows, err = c.QueryPipeline(qs, ps...)
			default:
				_, err = c.ExecPipeline(qs, ps...)
			}
			if err != nil {
				t.Errorf("%s: %v", what, vsInner(err))
				return
			}
			var want []vfReq
			for i := range qs0 {
				want = append(want, vsRun(qs0[i], ps0[i]), vsPull())
			}
			same := len(f.reqs) == len(want)
			for i := 0; same && i < len(want); i++ {
				same = f.reqs[i].sig == want[i].sig && len(f.reqs[i].f) == len(want[i].f)
				for j := 0; same && j < len(want[i].f); j++ {
					same = vsEqual(f.reqs[i].f[j], want[i].f[j])
				}
			}
			if !same {
				t.Errorf("%s: sends %v instead of %v", what, f.reqs, want)
			}
			if !reflect.DeepEqual(qs, qs0) || !reflect.DeepEqual(ps, ps0) {
				t.Errorf("%s: changes its arguments %v %v to %v %v", what, qs0, ps0, qs, ps)
			}
			if query {
				if err := rows.Close(); err != nil {
					t.Errorf("%s: close: %v", what, vsInner(err))
				}
			}
			for _, f := range close {
				f()
			}
			vfIdle(t, what, c, f)
		})
	}
	var all func(qs []string, ps []map[string]interface{}, more int)
	all = func(qs []string, ps []map[string]interface{}, more int) {
		if len(qs) > 0 {
			for k := 0; k < 4; k++ {
				what := fmt.Sprintf("pipeline %v with %v (prepared %v, query %v)", qs, ps, k&1 == 1, k&2 == 2)
				try(what, append([]string{}, qs...), append([]map[string]interface{}{}, ps...), k&1 == 1, k&2 == 2)
			}
		}
		if more == 0 {
			return
		}
		for _, o := range ones {
			all(append(append([]string{}, qs...), o.q), append(append([]map[string]interface{}{}, ps...), o.p), more-1)
		}
	}
	all(nil, nil, 3)
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC14(t *testing.T) {
	vsSessions(t, "C14")
	vfPipes(t)
	n := 0
	for _, k := range []int{1, 2, 3, 10, 50} {
		n++
		c, f := vfPair()
		var names []string
		var ps []map[string]interface{}
		for i := 0; i < k; i++ {
			q := fmt.Sprint("Q", i)
			f.answer(&vfAns{q: q, cols: []interface{}{q}, recs: vfRecs(i%3, 1), summary: vfMeta("i", int64(i))})
			names = append(names, q)
			ps = append(ps, vfMeta("p", int64(i)))
		}
		vfGuard(t, fmt.Sprint(k, " queries"), func() {
			res, err := c.ExecPipeline(names, ps...)
			if err != nil || len(res) != k {
				t.Errorf("ExecPipeline of %d queries: %d results, %v", k, len(res), vsInner(err))
				return
			}
			for i := range res {
				if !vsEqual(res[i].Metadata(), vfMeta("i", int64(i))) {
					t.Errorf("ExecPipeline of %d queries: result %d is %v", k, i, res[i].Metadata())
				}
				if r := f.reqs[2*i]; !reflect.DeepEqual(r, vsRun(names[i], ps[i])) {
					t.Errorf("ExecPipeline of %d queries: request %d is %v", k, 2*i, r)
				}
			}
			rows, err := c.QueryPipeline(names, ps...)
			if err != nil {
				t.Errorf("QueryPipeline of %d queries: %v", k, vsInner(err))
				return
			}
			for i := 0; i < k; i++ {
				if cols := rows.Columns(); !reflect.DeepEqual(cols, []string{names[i]}) {
					t.Errorf("QueryPipeline of %d queries: the columns of set %d are %v", k, i, cols)
				}
				for j := 0; j < i%3; j++ {
					row, _, next, err := rows.NextPipeline()
					if err != nil || !vsNilIface(next) || !reflect.DeepEqual(row, vfRecs(3, 1)[j]) {
						t.Errorf("QueryPipeline of %d queries: row %d of set %d is %v, %v, %v", k, j, i, row, next, vsInner(err))
					}
				}
				row, _, next, err := rows.NextPipeline()
				if err != nil || row != nil || vsNilIface(next) != (i == k-1) {
					t.Errorf("QueryPipeline of %d queries: set %d ends with %v, %v, %v", k, i, row, next, vsInner(err))
					return
				}
				if i < k-1 {
					rows = next
				}
			}
			if _, _, _, err := rows.NextPipeline(); err != io.EOF {
				t.Errorf("QueryPipeline of %d queries: the end is %v", k, vsInner(err))
			}
			if err := rows.Close(); err != nil {
				t.Errorf("QueryPipeline of %d queries: Close: %v", k, vsInner(err))
			}
			vfIdle(t, "pipeline", c, f)
		})
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC18(t *testing.T) {
	vsSessions(t, "C18")
	n := 0
	names := []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}
	for mask := 0; mask < 16; mask++ {
		n++
		st := map[string]interface{}{"properties-set": int64(1000), "labels-added": int64(77), "contains-updates": true}
		want := int64(0)
		for i, k := range names {
			if mask>>uint(i)&1 == 1 {
				st[k] = int64(1) << uint(i*4)
				want += int64(1) << uint(i*4)
			}
		}
		c, f := vfPair()
		f.answer(&vfAns{q: "O", summary: vfMeta("stats", st)})
		r, err := c.ExecNeo("O", nil)
		if err != nil {
			t.Errorf("stats %v: %v", st, vsInner(err))
			continue
		}
		if got, err := r.RowsAffected(); got != want || err != nil {
			t.Errorf("stats %v: rows affected %d, %v instead of %d", st, got, err, want)
		}
	}
	for _, s := range []map[string]interface{}{nil, {}, {"type": "r"}} {
		if got, err := newResult(s).RowsAffected(); got != 0 || err != nil {
			t.Errorf("no stats: rows affected %d, %v", got, err)
		}
	}
	for _, x := range []interface{}{nil, "1", 1.5, true, []interface{}{}, map[string]interface{}{}} {
		for _, k := range names {
			n++
			vfGuard(t, fmt.Sprintf("%s: %v", k, x), func() {
				if got, err := newResult(vfMeta("stats", vfMeta(k, x))).RowsAffected(); err == nil {
					t.Errorf("%s of %v: rows affected %d, no error", k, x, got)
				}
			})
		}
		if _, ok := x.(map[string]interface{}); ok {
			continue
		}
		vfGuard(t, fmt.Sprintf("stats: %v", x), func() {
			if got, err := newResult(vfMeta("stats", x)).RowsAffected(); err == nil {
				t.Errorf("stats of %v: rows affected %d, no error", x, got)
			}
		})
	}
	// row values of the sql interface
	g := []interface{}{
		vfS{0x4E, []interface{}{int64(5), []interface{}{"L"}, vfMeta("k", "v")}},
		vfS{0x52, []interface{}{int64(5), int64(6), int64(7), "T", vfMeta("k", int64(1))}},
		vfS{0x72, []interface{}{int64(5), "T", map[string]interface{}{}}},
		vfS{0x50, []interface{}{[]interface{}{vfS{0x4E, []interface{}{int64(5), []interface{}{}, map[string]interface{}{}}}}, []interface{}{}, []interface{}{}}},
	}
	for _, v := range append(g, nil, true, false, int64(-5), int64(1)<<62, 2.5, "", "text", []interface{}{}, []interface{}{int64(1), "x"}, map[string]interface{}{}, vfMeta("a", nil)) {
		n++
		c, f := vfPair()
		f.answer(&vfAns{q: "O", recs: [][]interface{}{{v, "x"}}})
		vfGuard(t, fmt.Sprintf("value %v", v), func() {
			rows, err := c.Query("O", nil)
			if err != nil {
				t.Errorf("value %v: %v", v, vsInner(err))
				return
			}
			dest := make([]driver.Value, 2)
			if err := rows.Next(dest); err != nil || dest[1] != "x" {
				t.Errorf("value %v: the row is %v, %v", v, dest, vsInner(err))
				return
			}
			if _, ok := v.(vfS); ok {
				b, ok := dest[0].([]byte)
				if !ok {
					t.Errorf("value %v: the row is %v", v, dest)
					return
				}
				got, err := encoding.Unmarshal(b)
				want, _ := encoding.Unmarshal(vfChunks(vfPack(v), 0))
				if err != nil || !reflect.DeepEqual(got, want) {
					t.Errorf("value %v: the bytes are %v, %v", v, got, vsInner(err))
				}
			} else if !vsSQLValue(dest[0], v) {
				t.Errorf("value %v: the row is %v", v, dest)
			}
		})
	}
	// rows and metadata that do not fit
	for _, rec := range [][]interface{}{{}, {int64(1)}, {int64(1), int64(2), int64(3)}, {vfS{vfSUCCESS, []interface{}{map[string]interface{}{}}}, int64(1)}, {vfS{vfIGNORED, nil}, int64(1)}} {
		n++
		c, f := vfPair()
		f.answer(&vfAns{q: "O", recs: [][]interface{}{rec}})
		vfGuard(t, fmt.Sprintf("record %v", rec), func() {
			rows, err := c.Query("O", nil)
			if err != nil {
				t.Errorf("record %v: %v", rec, vsInner(err))
				return
			}
			if err := rows.Next(make([]driver.Value, 2)); err == nil || err == io.EOF {
				t.Errorf("record %v for two columns: %v", rec, err)
			}
		})
	}
	for _, m := range []interface{}{nil, int64(1), "a", map[string]interface{}{}, []interface{}{int64(1)}, []interface{}{"a", nil}, []interface{}{}} {
		n++
		c, f := vfPair()
		f.replyFor = func(r vfReq) []byte {
			if r.sig != vfRUN {
				return nil
			}
			f.cur = &vfAns{}
			return vfChunks(vfPack(vfS{vfSUCCESS, []interface{}{vfMeta("fields", m)}}), 0)
		}
		vfGuard(t, fmt.Sprintf("fields %v", m), func() {
			rows, err := c.Query("O", nil)
			if err != nil {
				t.Errorf("fields %v: %v", m, vsInner(err))
				return
			}
			if cols := rows.Columns(); len(cols) != 0 {
				t.Errorf("fields %v: the columns are %v", m, cols)
			}
			rows.Close()
		})
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC20(t *testing.T) {
	vsSessions(t, "C20")
	vfPipes(t)
	n := 0
	for _, ln := range []int{0, 1, 15, 16, 255, 256, 65535, 65536, 200000} {
		for _, chunk := range []uint16{0, 1, 100, 65535} {
			n++
			c, f := vfPair()
			c.SetChunkSize(chunk)
			q := strings.Repeat("q", ln)
			p := map[string]interface{}{"s": strings.Repeat("é", ln/2), "l": []interface{}{int64(ln), nil, 1.5, vfMeta("x", true)}}
			vfGuard(t, fmt.Sprint("query of ", ln, " bytes"), func() {
				if _, err := c.ExecNeo(q, p); err != nil {
					t.Errorf("query of %d bytes, chunk size %d: %v", ln, chunk, vsInner(err))
				}
				if len(f.bad) > 0 || len(f.reqs) != 2 || !reflect.DeepEqual(f.reqs[0], vsRun(q, p)) || f.reqs[1].sig != vfPULL {
					t.Errorf("query of %d bytes, chunk size %d: the requests are %.300v %.300v", ln, chunk, f.reqs, f.bad)
				}
			})
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifXX(t *testing.T) { vsSessions(t, "C") }

var _ = time.Second
