# planted bugs of the connection properties: each demo holds a copy of the server in memory
import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
fake=open('/verif/battery/bolt/zz_verif_fake_test.go').read()
def demo(body, *imps):
    s=fake.replace('import (','import (\n\t"testing"\n'+''.join('\t%s\n'%i for i in imps),1)
    return s+'''
func pair() (*boltConn, *vfConn) {
	f := newVfConn()
	c := createBoltConn("bolt://fake")
	c.conn = f
	return c, f
}

func rec(v ...interface{}) []interface{} { return v }

func (s *vfServer) on(q string, a *vfAns) {
	a.q = q
	if a.cols == nil {
		a.cols = []interface{}{"a"}
	}
	s.answers[q] = a
}

func meta(k string, v interface{}) map[string]interface{} { return map[string]interface{}{k: v} }

'''+body.lstrip('\n')
ERR='bolterrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"'
MSG='"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"'
def seed(ID,prop,edits,body,imps,needs,breaks):
    mkseed(ID,prop,'',edits,demo(body,*imps),needs,breaks)

seed('c08-ack-ignored','C08',[('conn.go','''	for {
		respInt, err := encoding.NewDecoder(c).Decode()
		if err != nil {
			return errors.Wrap(err, "An error occurred decoding ack failure message response")
''','''	// do not wait forever
	for i := 0; i < 16; i++ {
		respInt, err := encoding.NewDecoder(c).Decode()
		if err != nil {
			return errors.Wrap(err, "An error occurred decoding ack failure message response")
'''),('conn.go','''			log.Errorf("Got unrecognized response from acking failure: %#v", resp)
			c.connErr = errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp)
			c.Close()
			return driver.ErrBadConn
		}
	}
''','''			log.Errorf("Got unrecognized response from acking failure: %#v", resp)
			c.connErr = errors.New("Got unrecognized response from acking failure: %#v. CLOSING SESSION!", resp)
			c.Close()
			return driver.ErrBadConn
		}
	}
	return nil
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("Q", &vfAns{runFail: meta("code", "x")})
	f.on("O", &vfAns{summary: meta("n", int64(1))})
	qs := []string{"Q"}
	for len(qs) < 10 {
		qs = append(qs, "O")
	}
	if _, err := c.ExecPipeline(qs, make([]map[string]interface{}, 10)...); err == nil {
		t.Fatal("no failure")
	}
	if len(f.out) > 0 {
		t.Errorf("%d bytes are outstanding after the failed pipeline", len(f.out))
	}
	if r, err := c.ExecNeo("O", nil); err != nil || r.Metadata()["n"] != int64(1) {
		t.Errorf("the next query: %v %v", r, err)
	}
}
''',[],'a failure early in a pipeline of nine or more queries','responses stay on the wire and the next query takes them for its own')

seed('c09-begin-failure','C09',[('conn.go','''		return nil, errors.Wrap(err, "An error occurred beginning transaction")
''','''		return nil, errors.New("An error occurred beginning transaction: %s", err)
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("BEGIN", &vfAns{runFail: meta("code", "x")})
	_, err := c.Begin()
	e, ok := err.(*bolterrors.Error)
	if !ok {
		t.Fatalf("%T", err)
	}
	if m, ok := e.InnerMost().(messages.FailureMessage); !ok || m.Metadata["code"] != "x" {
		t.Errorf("the innermost error is a %T", e.InnerMost())
	}
}
''',[ERR,MSG],'the server refuses BEGIN','the failure with its metadata is flattened to text')

seed('c09-failure-in-discard','C09',[('conn.go','''	if failure, isFail := respInt.(messages.FailureMessage); isFail {
		log.Errorf("Got failure message: %#v", failure)
''','''	if failure, isFail := respInt.(messages.FailureMessage); isFail {
		log.Errorf("Got failure message: %#v", failure)
		if c.statement != nil && c.statement.closed {
			// nobody waits for the result
			return messages.NewSuccessMessage(nil), c.ackFailure(failure)
		}
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("Q", &vfAns{recs: [][]interface{}{rec(int64(1))}, pullFail: meta("code", "x")})
	s, err := c.PrepareNeo("Q")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.QueryNeo(nil); err != nil {
		t.Fatal(err)
	}
	if err := s.Close(); err == nil {
		t.Error("closing the statement hides the failure of its query")
	}
}
''',[],'a failure that arrives while the unread rows of a statement that is being closed are discarded','the failure is acknowledged but not reported')

seed('c10-write-timeout','C10',[('conn.go','''	if err != nil {
		c.connErr = errors.Wrap(err, "An error occurred writing to stream")
		err = driver.ErrBadConn
	}
''','''	if err != nil {
		if e, ok := err.(net.Error); !ok || !e.Timeout() || n == 0 {
			c.connErr = errors.Wrap(err, "An error occurred writing to stream")
		}
		err = driver.ErrBadConn
	}
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.fault = &vfFault{write: true, at: 3, err: vfTimeout{}, transient: true}
	if _, err := c.ExecNeo("Q", nil); err == nil {
		t.Fatal("no error")
	}
	f.fault = nil
	n := f.nw
	if _, err := c.ExecNeo("Q", nil); err == nil || f.nw != n {
		t.Errorf("the connection is used after half a message: %v, %d bytes", err, f.nw-n)
	}
}
''',[],'a write that times out after part of the bytes','the connection is not remembered as broken and goes on after half a message')

seed('c11-second-exec','C11',[('stmt.go','''	if s.rows != nil {
		return nil, errors.New("Another query is already open")
	}

	runResp, pullResp, _, err''','''	if s.rows != nil && !s.rows.consumed {
		return nil, errors.New("Another query is already open")
	}

	runResp, pullResp, _, err''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("Q", &vfAns{recs: [][]interface{}{rec(int64(1)), rec(int64(2))}})
	s, err := c.PrepareNeo("Q")
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.QueryNeo(nil)
	if err != nil {
		t.Fatal(err)
	}
	r.NextNeo()
	n := f.nw
	if _, err := s.ExecNeo(nil); err == nil || f.nw != n {
		t.Errorf("not refused with open rows: %v, %d bytes sent", err, f.nw-n)
	}
}
''',[],'executing a statement while its rows are partly read','the execution is not refused')

seed('c12-forgotten-transaction','C12',[('tx.go','''	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
''','''	t.conn.transaction = nil
	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("ROLLBACK", nil)
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("ROLLBACK", &vfAns{runFail: meta("code", "x")})
	tx, err := c.Begin()
	if err != nil {
		t.Fatal(err)
	}
	if err := tx.Rollback(); err == nil {
		t.Fatal("no failure")
	}
	n := f.nw
	if _, err := c.Begin(); err == nil || f.nw != n {
		t.Errorf("a second transaction is begun: %v", err)
	}
}
''',[],'a ROLLBACK that fails on the server','the transaction is forgotten, a second Begin is sent and Close does not roll back')

seed('c13-empty-record','C13',[('rows.go','''		if err != nil || row == nil {
''','''		if err != nil || len(row) == 0 {
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("Q", &vfAns{cols: []interface{}{}, recs: [][]interface{}{rec(), rec(), rec()}, summary: meta("n", int64(3))})
	rows, _, sum, err := c.QueryNeoAll("Q", nil)
	if err != nil || len(rows) != 3 || sum["n"] != int64(3) {
		t.Errorf("%v %v %v", rows, sum, err)
	}
}
''',[],'records without fields, fetched with All','the rows end silently at the first empty record')

seed('c14-previous-params','C14',[('stmt.go','''	for i, query := range s.queries {
		err := s.conn.sendRunPullAll(query, params[i])
		if err != nil {
			// The queries already sent are still answered
			if _, _, e := s.conn.consumeAllMultiple(2 * i); e != nil {
				err = e
			}
			return nil, errors.Wrap(err, "Error running query:''','''	for i, query := range s.queries {
		if len(params[i]) == 0 && i > 0 && s.queries[i-1] == query {
			params[i] = params[i-1]
		}
		err := s.conn.sendRunPullAll(query, params[i])
		if err != nil {
			// The queries already sent are still answered
			if _, _, e := s.conn.consumeAllMultiple(2 * i); e != nil {
				err = e
			}
			return nil, errors.Wrap(err, "Error running query:''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	rows, err := c.QueryPipeline([]string{"Q", "Q"}, meta("x", int64(1)), nil)
	if err != nil {
		t.Fatal(err)
	}
	rows.Close()
	if p := f.reqs[2].f[1].(map[string]interface{}); len(p) != 0 {
		t.Errorf("the second query is sent with %v", p)
	}
}
''',[],'a query pipeline with the same query twice, the second time without parameters','the second query is sent with the parameters of the first')

seed('c20-eager-pull','C20',[('stmt.go','''	respInt, err := s.conn.sendRunConsume(s.query, params)
	if err != nil {
		return nil, err
	}
''','''	if len(params) == 0 && s.conn.transaction != nil {
		// no need to wait
		return s.conn.queryStmt(s)
	}
	respInt, err := s.conn.sendRunConsume(s.query, params)
	if err != nil {
		return nil, err
	}
'''),('conn.go','''func (c *boltConn) sendDiscardAll() error {
''','''func (c *boltConn) queryStmt(s *boltStmt) (*boltRows, error) {
	respInt, err := c.sendRunPullAllConsumeRun(s.query, nil)
	if err != nil {
		return nil, err
	}
	resp, ok := respInt.(messages.SuccessMessage)
	if !ok {
		return nil, errors.New("Unrecognized response type running query: %#v", resp)
	}
	s.rows = newRows(s, resp.Metadata)
	s.rows.consumed = true
	return s.rows, nil
}

func (c *boltConn) sendDiscardAll() error {
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	if _, err := c.Begin(); err != nil {
		t.Fatal(err)
	}
	s, err := c.PrepareNeo("Q")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.QueryNeo(nil); err != nil {
		t.Fatal(err)
	}
	for _, r := range f.reqs[2:] {
		if r.sig == vfPULL {
			t.Errorf("records are asked for before the first row is")
		}
	}
}
''',[],'a prepared query without parameters inside a transaction','PULL_ALL is sent with RUN instead of with the first row')
