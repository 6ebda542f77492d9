package golangNeo4jBoltDriver

// Random histories of API calls on a connection to the server in memory, each
// call compared with what the properties say about it.

import (
	"database/sql/driver"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	bolterrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

type vsStmt struct {
	neo    Stmt
	pipe   PipelineStmt
	qs     []*vfAns
	rows   *vsRows
	closed bool
	direct bool // not exposed: closed with its rows
}

type vsRows struct {
	neo      Rows
	pipe     PipelineRows
	sql      driver.Rows
	stmt     *vsStmt
	idx, pos int
	started  bool
	finished bool // the last response was read
	eof      bool // finished successfully
	closed   bool
}

type vsTx struct {
	tx   driver.Tx
	done bool
}

type vsWorld struct {
	t      *testing.T
	prop   string
	name   string
	r      *rand.Rand
	f      *vfConn
	c      *boltConn
	n      int
	params []map[string]interface{}
	stmt   *vsStmt
	tx     *vsTx
	closed bool
	stmts  []*vsStmt
	rowss  []*vsRows
	txs    []*vsTx
	log    []string
	stop   bool
	mark   int // requests before this call
	moved  int // transfers before this call
	cases  int
	ops    int
}

func newWorld(t *testing.T, prop, name string, r *rand.Rand) *vsWorld {
	w := &vsWorld{t: t, prop: prop, name: name, r: r, f: newVfConn()}
	w.c = createBoltConn("bolt://fake")
	w.c.conn = w.f
	w.c.SetTimeout([]time.Duration{7, 60, 3600}[r.Intn(3)] * time.Second)
	w.f.timeout = w.c.timeout
	if r.Intn(2) == 0 {
		w.c.SetChunkSize([]uint16{0, 1, 2, 3, 7, 100, 65535}[r.Intn(7)])
	}
	if r.Intn(2) == 0 {
		w.f.split = func() int { return []int{1, 2, 3, 5, 1000}[r.Intn(5)] }
	}
	w.f.outSize = []int{0, 1, 2, 5, 300}[r.Intn(5)]
	return w
}

// fail reports a difference if it concerns the property under test; the history
// ends here either way, because what follows may be a consequence.
func (w *vsWorld) fail(tags, f string, a ...interface{}) {
	if w.stop {
		return
	}
	w.stop = true
	if strings.Contains(tags, w.prop) {
		h := w.log
		if len(h) > 14 {
			h = h[len(h)-14:]
		}
		w.t.Errorf("%s: %s; history: %s", w.name, strings.Replace(fmt.Sprintf(f, a...), "\n", " ", -1), strings.Join(h, "; "))
	}
}

func (w *vsWorld) value(d int) interface{} {
	r := w.r
	switch k := r.Intn(12); {
	case k == 0:
		return nil
	case k == 1:
		return r.Intn(2) == 0
	case k < 5:
		return []int64{0, 1, -1, -16, -17, 127, 128, -128, -129, 32767, 32768, -32768, -32769, 2147483647, 2147483648, -2147483648, -2147483649, 9223372036854775807, -9223372036854775808}[r.Intn(19)]
	case k == 5:
		return []float64{0, 1.5, -2.25, 1e300, -1e-300}[r.Intn(5)]
	case k < 9:
		return strings.Repeat("x", []int{0, 1, 15, 16, 17, 255, 256, 300}[r.Intn(8)])
	case k == 9 && d > 0:
		l := []interface{}{}
		for i := r.Intn(20); i > 0; i-- {
			l = append(l, w.value(d-1))
		}
		return l
	case k >= 10 && d > 0:
		return w.dict(d - 1)
	}
	return int64(w.n)
}

func (w *vsWorld) dict(d int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := w.r.Intn(4); i > 0; i-- {
		m[fmt.Sprintf("k%d", w.r.Intn(50))] = w.value(d)
	}
	return m
}

// query makes up a new query and how the server answers it.
func (w *vsWorld) query() *vfAns {
	w.n++
	a := &vfAns{q: fmt.Sprintf("Q%d", w.n)}
	if w.r.Intn(6) == 0 {
		a.q += strings.Repeat("y", []int{10, 13, 14, 250, 254, 300}[w.r.Intn(6)])
	}
	a.cols = []interface{}{}
	for i := w.r.Intn(4); i > 0; i-- {
		a.cols = append(a.cols, fmt.Sprintf("c%d_%d", w.n, i))
	}
	a.meta = map[string]interface{}{"run": int64(w.n)}
	nrec := w.r.Intn(5)
	if w.r.Intn(20) == 0 {
		nrec = 40
	}
	for i := 0; i < nrec; i++ {
		rec := []interface{}{}
		for j := range a.cols {
			if j == 0 {
				rec = append(rec, int64(w.n*100+i))
			} else {
				rec = append(rec, w.value(2))
			}
		}
		a.recs = append(a.recs, rec)
	}
	a.summary = map[string]interface{}{"type": "r", "id": int64(w.n), "x": w.value(1)}
	switch w.r.Intn(8) {
	case 0:
		a.runFail = map[string]interface{}{"code": "Neo.run", "message": fmt.Sprint("failure of run ", w.n)}
	case 1:
		a.pullFail = map[string]interface{}{"code": "Neo.pull", "message": fmt.Sprint("failure of pull ", w.n)}
	}
	w.f.answers[a.q] = a
	return a
}

func (w *vsWorld) args() map[string]interface{} {
	switch w.r.Intn(6) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	}
	return w.dict(2)
}

type vsUnsupported struct{}

// badArgs cannot be encoded.
func (w *vsWorld) badArgs() map[string]interface{} {
	return map[string]interface{}{"a": strings.Repeat("z", w.r.Intn(400)), "bad": []interface{}{1, vsUnsupported{}}}
}

func (w *vsWorld) begin(f string, a ...interface{}) {
	w.ops++
	w.log = append(w.log, fmt.Sprintf(f, a...))
	w.mark, w.moved = len(w.f.reqs), w.f.nr+w.f.nw
	if w.r.Intn(10) == 0 {
		w.c.SetTimeout([]time.Duration{5, 30, 600}[w.r.Intn(3)] * time.Second)
		w.f.timeout = w.c.timeout
	}
	if w.r.Intn(10) == 0 {
		w.f.ackFail = 1
	} else {
		w.f.ackFail = 0
	}
}

func vsNorm(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok && m == nil {
		return nil
	}
	return v
}

func vsEqual(a, b interface{}) bool { return reflect.DeepEqual(vsNorm(a), vsNorm(b)) }

// sent checks the requests of this call; an acknowledgement is expected after
// a failure.
func (w *vsWorld) sent(tags string, failed bool, want ...vfReq) {
	if failed {
		want = append(want, vfReq{vfACK, nil})
	}
	got := w.f.reqs[w.mark:]
	if failed && len(got) == len(want)+1 && got[len(got)-1].sig == vfRESET {
		got = got[:len(got)-1]
	}
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].sig == want[i].sig && len(got[i].f) == len(want[i].f)
		for j := 0; ok && j < len(got[i].f); j++ {
			ok = vsEqual(got[i].f[j], want[i].f[j])
		}
	}
	if !ok {
		w.fail(tags, "the requests sent are %v, expected %v", got, want)
	}
}

func vsRun(q string, p map[string]interface{}) vfReq {
	if p == nil {
		p = map[string]interface{}{}
	}
	return vfReq{vfRUN, []interface{}{q, p}}
}

func vsPull() vfReq { return vfReq{vfPULL, nil} }

func vsInner(err error) error {
	if e, ok := err.(*bolterrors.Error); ok && e != nil {
		return e.InnerMost()
	}
	return err
}

// failure checks that err is the failure.
func (w *vsWorld) failure(err error, meta map[string]interface{}) {
	if err == nil {
		w.fail("C09 C12 C13 C14", "no error, but the server reported the failure %v", meta)
		return
	}
	f, ok := vsInner(err).(messages.FailureMessage)
	if !ok || !vsEqual(f.Metadata, meta) {
		w.fail("C09", "the innermost error is %#v instead of the failure %v", vsInner(err), meta)
	}
}

// quiet: the call was refused or had nothing to do on the wire.
func (w *vsWorld) quiet(tags string) {
	if w.f.nr+w.f.nw != w.moved {
		w.fail(tags, "there was traffic: %v", w.f.reqs[w.mark:])
	}
}

func (w *vsWorld) refused(err error, why string) {
	if err == nil {
		w.fail("C11", "not refused (%s)", why)
	}
	w.quiet("C11 C20")
}

// end checks what holds after every call.
func (w *vsWorld) end() {
	if w.stop {
		return
	}
	if w.f.overread > 0 {
		w.fail("C08", "waited for a response that is not owed")
	}
	if len(w.f.bad) > 0 {
		w.fail("C08 C20", "protocol violation: %v", w.f.bad)
	}
	if len(w.f.deadlines) > 0 {
		w.fail("C19", "%v", w.f.deadlines[0])
	}
	if w.c.connErr != nil && !w.closed {
		w.fail("C08 C09 C10", "the connection is broken without a fault: %v", vsInner(w.c.connErr))
	}
	if w.stmt == nil || w.stmt.rows == nil || w.stmt.rows.finished {
		if len(w.f.out) > 0 {
			w.fail("C08", "no rows are open but responses are outstanding: % x", w.f.out[:vsMin(len(w.f.out), 40)])
		}
		if w.f.failed || w.f.cur != nil {
			w.fail("C08 C09", "no rows are open but the server is not ready (failed %v)", w.f.failed)
		}
	}
	if len(w.f.raw) > 0 || len(w.f.msg) > 0 {
		w.fail("C08 C20", "a request is incomplete")
	}
}

func vsMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (w *vsWorld) busy() string {
	if w.closed {
		return "closed connection"
	}
	if w.stmt != nil {
		return "open statement"
	}
	return ""
}

func (w *vsWorld) newStmt(direct bool, qs ...*vfAns) *vsStmt {
	s := &vsStmt{qs: qs, direct: direct}
	w.stmt = s
	return s
}

func (w *vsWorld) newRows(s *vsStmt) *vsRows {
	x := &vsRows{stmt: s}
	s.rows = x
	w.rowss = append(w.rowss, x)
	return x
}

func vsNilIface(v interface{}) bool {
	if v == nil {
		return true
	}
	x := reflect.ValueOf(v)
	return x.Kind() == reflect.Ptr && x.IsNil()
}

func (w *vsWorld) opPrepare() {
	a := w.query()
	w.begin("Prepare %.10s", a.q)
	why := w.busy()
	var st Stmt
	var err error
	if w.r.Intn(3) == 0 {
		var x driver.Stmt
		if x, err = w.c.Prepare(a.q); err == nil {
			st = x.(Stmt)
		}
	} else {
		st, err = w.c.PrepareNeo(a.q)
	}
	if why != "" {
		w.refused(err, why)
		return
	}
	if err != nil {
		w.fail("C11", "refused on an idle connection: %v", vsInner(err))
		return
	}
	w.quiet("C20")
	s := w.newStmt(false, a)
	s.neo = st
	w.stmts = append(w.stmts, s)
}

func (w *vsWorld) queries() (qs []*vfAns, names []string, ps []map[string]interface{}) {
	for i := w.r.Intn(5); i > 0; i-- {
		a := w.query()
		if w.r.Intn(3) > 0 {
			a.runFail, a.pullFail = nil, nil
		}
		qs = append(qs, a)
		names = append(names, a.q)
		ps = append(ps, w.args())
	}
	return
}

func (w *vsWorld) opPreparePipeline() {
	qs, names, _ := w.queries()
	w.begin("PreparePipeline %d", len(qs))
	why := w.busy()
	st, err := w.c.PreparePipeline(names...)
	if why != "" {
		w.refused(err, why)
		return
	}
	if err != nil {
		w.fail("C11", "refused on an idle connection: %v", vsInner(err))
		return
	}
	w.quiet("C20")
	s := w.newStmt(false, qs...)
	s.pipe = st
	w.stmts = append(w.stmts, s)
}

// exec checks one execution.
func (w *vsWorld) exec(a *vfAns, p map[string]interface{}, res Result, err error) {
	switch {
	case a.runFail != nil:
		w.failure(err, a.runFail)
		w.sent("C20 C09", true, vsRun(a.q, p), vsPull())
	case a.pullFail != nil:
		w.failure(err, a.pullFail)
		w.sent("C20 C09", true, vsRun(a.q, p), vsPull())
	default:
		if err != nil {
			w.fail("C08 C11 C09 C12", "executing failed without a reason: %v", vsInner(err))
			return
		}
		w.sent("C20", false, vsRun(a.q, p), vsPull())
		if !vsEqual(res.Metadata(), a.summary) {
			w.fail("C08 C14 C18", "the result has the metadata %v, the server sent %v", res.Metadata(), a.summary)
		}
	}
}

func (w *vsWorld) unencodable(err error) {
	if err == nil {
		w.fail("C06 C20", "unencodable parameters were accepted")
	}
	w.quiet("C20 C08 C06")
}

func (w *vsWorld) opExec() {
	a, p := w.query(), w.args()
	bad := w.r.Intn(12) == 0
	if bad {
		p = w.badArgs()
	}
	if !bad && w.r.Intn(3) == 0 {
		args, merged, junk := w.sqlArgs()
		w.begin("sql Exec %.10s", a.q)
		why := w.busy()
		res, err := w.c.Exec(a.q, args)
		w.sqlExec(why, junk, a, merged, res, err)
		return
	}
	w.begin("Exec %.10s", a.q)
	why := w.busy()
	res, err := w.c.ExecNeo(a.q, p)
	if why != "" {
		w.refused(err, why)
	} else if bad {
		w.unencodable(err)
	} else {
		w.exec(a, p, res, err)
	}
}

func (w *vsWorld) sqlExec(why, junk string, a *vfAns, p map[string]interface{}, res driver.Result, err error) {
	if why != "" {
		w.refused(err, why)
	} else if junk != "" {
		w.junk(err, junk)
	} else if r, ok := res.(Result); ok || err != nil {
		w.exec(a, p, r, err)
	} else {
		w.fail("C18", "the result is a %T", res)
	}
}

func (w *vsWorld) junk(err error, junk string) {
	if err == nil {
		w.fail("C18 C20", "the arguments were accepted (%s)", junk)
	}
	w.quiet("C18 C20")
}

// sqlArgs makes arguments of the sql interface, the parameters they stand for,
// or the reason why they are to be refused.
func (w *vsWorld) sqlArgs() (args []driver.Value, merged map[string]interface{}, junk string) {
	merged = map[string]interface{}{}
	for i := w.r.Intn(4); i > 0; i-- {
		m := w.dict(2)
		for k, v := range m {
			merged[k] = v
		}
		args = append(args, vfChunks(vfPack(m), []int{0, 1, 7}[w.r.Intn(3)]))
	}
	if w.r.Intn(4) == 0 {
		bad := []struct {
			v    driver.Value
			what string
		}{
			{int64(1), "an integer"}, {"x", "a string"}, {nil, "nothing"}, {true, "a boolean"}, {1.5, "a float"},
			{vfChunks(vfPack(1), 0), "a marshalled integer"}, {vfChunks(vfPack("abc"), 0), "a marshalled string"},
			{vfChunks(vfPack([]interface{}{1}), 0), "a marshalled list"}, {vfChunks(vfPack(nil), 0), "a marshalled null"},
			{vfChunks(vfPack(vfS{0x71, []interface{}{[]interface{}{}}}), 0), "a marshalled message"},
			{[]byte{}, "no bytes"}, {[]byte{0, 3, 0xA1, 0x81, 'a', 0, 0}, "a truncated map"}, {[]byte{0, 2, 0xA1}, "a truncated chunk"},
		}
		b := bad[w.r.Intn(len(bad))]
		junk = b.what
		i := 0
		if len(args) > 0 {
			i = w.r.Intn(len(args))
		}
		args = append(args[:i:i], append([]driver.Value{b.v}, args[i:]...)...)
	}
	return
}

// sqlValue compares a value of the sql interface with the one of the record.
func vsSQLValue(got driver.Value, want interface{}) bool {
	switch want.(type) {
	case []interface{}, map[string]interface{}:
		b, ok := got.([]byte)
		if !ok {
			return false
		}
		var msg []byte
		for len(b) >= 2 {
			n := int(b[0])<<8 | int(b[1])
			if len(b) < 2+n {
				return false
			}
			msg = append(msg, b[2:2+n]...)
			b = b[2+n:]
			if n == 0 {
				break
			}
		}
		v, rest, err := vfUnpack(msg)
		return err == nil && len(rest)+len(b) == 0 && reflect.DeepEqual(v, want)
	}
	return reflect.DeepEqual(got, want)
}

func (w *vsWorld) pickStmt() *vsStmt {
	if len(w.stmts) == 0 {
		return nil
	}
	if w.stmt != nil && !w.stmt.direct && w.r.Intn(4) > 0 {
		return w.stmt
	}
	return w.stmts[w.r.Intn(len(w.stmts))]
}

func (s *vsStmt) busy(w *vsWorld) string {
	if s.closed {
		return "closed statement"
	}
	if s.rows != nil {
		return "open rows"
	}
	return ""
}

func (w *vsWorld) opStmtExec() {
	s := w.pickStmt()
	if s == nil {
		return
	}
	if s.pipe != nil {
		w.stmtExecPipeline(s)
		return
	}
	p := w.args()
	bad := w.r.Intn(12) == 0
	if bad {
		p = w.badArgs()
	}
	if !bad && w.r.Intn(3) == 0 {
		args, merged, junk := w.sqlArgs()
		w.begin("sql stmt.Exec %.10s", s.qs[0].q)
		why := s.busy(w)
		res, err := s.neo.(driver.Stmt).Exec(args)
		w.sqlExec(why, junk, s.qs[0], merged, res, err)
		return
	}
	w.begin("stmt.Exec %.10s", s.qs[0].q)
	why := s.busy(w)
	res, err := s.neo.ExecNeo(p)
	if why != "" {
		w.refused(err, why)
	} else if bad {
		w.unencodable(err)
	} else {
		w.exec(s.qs[0], p, res, err)
	}
}

func (w *vsWorld) columns(x *vsRows, a *vfAns) {
	m := w.moved
	w.moved = w.f.nr + w.f.nw
	var meta map[string]interface{}
	var cols []string
	if x.neo != nil {
		meta, cols = x.neo.Metadata(), x.neo.Columns()
	} else {
		meta, cols = x.pipe.Metadata(), x.pipe.Columns()
	}
	want := []string{}
	for _, c := range a.cols {
		want = append(want, c.(string))
	}
	if !vsEqual(meta, a.runMeta()) || !reflect.DeepEqual(cols, want) {
		w.fail("C13 C14", "the rows have the columns %v and the metadata %v, the server announced %v", cols, meta, a.runMeta())
	}
	w.quiet("C20")
	w.moved = m
}

func (w *vsWorld) opStmtQuery() {
	s := w.pickStmt()
	if s == nil {
		return
	}
	if s.pipe != nil {
		w.stmtQueryPipeline(s)
		return
	}
	a, p := s.qs[0], w.args()
	bad := w.r.Intn(12) == 0
	if bad {
		p = w.badArgs()
	}
	w.begin("stmt.Query %.10s", a.q)
	why := s.busy(w)
	var rows Rows
	var err error
	junk := ""
	if !bad && w.r.Intn(3) == 0 {
		var args []driver.Value
		args, p, junk = w.sqlArgs()
		var x driver.Rows
		if x, err = s.neo.(driver.Stmt).Query(args); err == nil {
			rows = x.(Rows)
		}
	} else {
		rows, err = s.neo.QueryNeo(p)
	}
	switch {
	case why != "":
		w.refused(err, why)
	case junk != "":
		w.junk(err, junk)
	case bad:
		w.unencodable(err)
	case a.runFail != nil:
		w.failure(err, a.runFail)
		w.sent("C20 C09", true, vsRun(a.q, p))
	case err != nil:
		w.fail("C08 C09 C11", "querying failed without a reason: %v", vsInner(err))
	default:
		w.sent("C20", false, vsRun(a.q, p))
		x := w.newRows(s)
		x.neo = rows
		w.columns(x, a)
	}
}

func (w *vsWorld) opQuery() {
	a, p := w.query(), w.args()
	bad := w.r.Intn(12) == 0
	if bad {
		p = w.badArgs()
	}
	w.begin("Query %.10s", a.q)
	why := w.busy()
	var rows Rows
	var err error
	junk := ""
	if !bad && w.r.Intn(3) == 0 {
		var args []driver.Value
		args, p, junk = w.sqlArgs()
		var x driver.Rows
		if x, err = w.c.Query(a.q, args); err == nil {
			rows = x.(Rows)
		}
	} else {
		rows, err = w.c.QueryNeo(a.q, p)
	}
	switch {
	case why != "":
		w.refused(err, why)
	case junk != "":
		w.junk(err, junk)
	case bad:
		w.unencodable(err)
	case a.runFail != nil:
		w.failure(err, a.runFail)
		w.sent("C20 C09", true, vsRun(a.q, p), vsPull())
	case err != nil:
		w.fail("C08 C09 C11", "querying failed without a reason: %v", vsInner(err))
	default:
		w.sent("C20", false, vsRun(a.q, p), vsPull())
		x := w.newRows(w.newStmt(true, a))
		x.neo = rows
		x.started = true
		w.columns(x, a)
	}
}

func (w *vsWorld) opQueryAll() {
	a, p := w.query(), w.args()
	w.begin("QueryNeoAll %.10s", a.q)
	why := w.busy()
	recs, meta, sum, err := w.c.QueryNeoAll(a.q, p)
	switch {
	case why != "":
		w.refused(err, why)
	case a.runFail != nil:
		w.failure(err, a.runFail)
		w.sent("C20 C09", true, vsRun(a.q, p), vsPull())
	case a.pullFail != nil:
		w.failure(err, a.pullFail)
		w.sent("C20 C09", true, vsRun(a.q, p), vsPull())
	case err != nil:
		w.fail("C08 C09 C11 C13", "querying failed without a reason: %v", vsInner(err))
	default:
		w.sent("C20", false, vsRun(a.q, p), vsPull())
		w.records(recs, a.recs)
		if !vsEqual(meta, a.runMeta()) || !vsEqual(sum, a.summary) {
			w.fail("C13", "metadata %v and summary %v differ from the server's %v and %v", meta, sum, a.runMeta(), a.summary)
		}
	}
}

func (w *vsWorld) records(got, want [][]interface{}) {
	if len(got) != len(want) {
		w.fail("C13", "%d records instead of %d", len(got), len(want))
		return
	}
	for i := range got {
		if !reflect.DeepEqual(got[i], want[i]) {
			w.fail("C13", "record %d is %v instead of %v", i, got[i], want[i])
		}
	}
}

func (w *vsWorld) stmtExecPipeline(s *vsStmt) {
	ps := []map[string]interface{}{}
	for range s.qs {
		ps = append(ps, w.args())
	}
	wrong := w.r.Intn(10) == 0
	if wrong {
		if ps = append(ps, nil); w.r.Intn(2) == 0 && len(s.qs) > 0 {
			ps = ps[:len(s.qs)-1]
		}
	}
	bad := -1
	if len(s.qs) > 0 && w.r.Intn(10) == 0 && !wrong {
		bad = w.r.Intn(len(s.qs))
		ps[bad] = w.badArgs()
	}
	w.begin("stmt.ExecPipeline %d bad %d", len(s.qs), bad)
	why := s.busy(w)
	res, err := s.pipe.ExecPipeline(ps...)
	if why != "" {
		w.refused(err, why)
		return
	}
	w.execPipeline(s.qs, ps, wrong, bad, res, err)
}

func (w *vsWorld) execPipeline(qs []*vfAns, ps []map[string]interface{}, wrong bool, bad int, res []Result, err error) {
	if wrong {
		if err == nil {
			w.fail("C14", "%d queries with %d parameters were accepted", len(qs), len(ps))
		}
		w.quiet("C14 C20")
		return
	}
	want := []vfReq{}
	var fail map[string]interface{}
	for i, a := range qs {
		if i == bad {
			break
		}
		want = append(want, vsRun(a.q, ps[i]), vsPull())
		if fail == nil {
			fail = a.runFail
		}
		if fail == nil {
			fail = a.pullFail
		}
	}
	w.sent("C20 C14", fail != nil, want...)
	if bad >= 0 {
		if err == nil {
			w.fail("C06 C20", "unencodable parameters were accepted")
		}
		return
	}
	if fail != nil {
		w.failure(err, fail)
		return
	}
	if err != nil {
		w.fail("C08 C09 C11 C14", "the pipeline failed without a reason: %v", vsInner(err))
		return
	}
	if len(res) != len(qs) {
		w.fail("C14", "%d results for %d queries", len(res), len(qs))
		return
	}
	for i, a := range qs {
		if vsNilIface(res[i]) || !vsEqual(res[i].Metadata(), a.summary) {
			w.fail("C14", "result %d is %v, the server sent %v", i, res[i], a.summary)
		}
	}
}

func (w *vsWorld) opExecPipeline() {
	qs, names, ps := w.queries()
	wrong := w.r.Intn(10) == 0
	if wrong {
		ps = append(ps, nil)
	}
	bad := -1
	if len(qs) > 0 && w.r.Intn(10) == 0 && !wrong {
		bad = w.r.Intn(len(qs))
		ps[bad] = w.badArgs()
	}
	w.begin("ExecPipeline %d bad %d", len(qs), bad)
	why := w.busy()
	res, err := w.c.ExecPipeline(names, ps...)
	if why != "" {
		w.refused(err, why)
		return
	}
	w.execPipeline(qs, ps, wrong, bad, res, err)
}

func (w *vsWorld) queryPipeline(s *vsStmt, qs []*vfAns, ps []map[string]interface{}, bad int, rows PipelineRows, err error) {
	if len(ps) != len(qs) || len(qs) == 0 {
		if err == nil {
			w.fail("C14", "%d queries with %d parameters were accepted", len(qs), len(ps))
		}
		w.quiet("C14 C20")
		return
	}
	want := []vfReq{}
	var fail map[string]interface{}
	for i, a := range qs {
		if i == bad {
			break
		}
		want = append(want, vsRun(a.q, ps[i]), vsPull())
		if fail == nil {
			fail = a.runFail
		}
		if fail == nil {
			fail = a.pullFail
		}
	}
	if bad >= 0 {
		w.sent("C20 C14", fail != nil, want...)
		if err == nil {
			w.fail("C06 C20", "unencodable parameters were accepted")
		}
		return
	}
	if qs[0].runFail != nil {
		w.sent("C20 C14", true, want...)
		w.failure(err, qs[0].runFail)
		return
	}
	w.sent("C20 C14", false, want...)
	if err != nil {
		w.fail("C08 C09 C11 C14", "the pipeline failed without a reason: %v", vsInner(err))
		return
	}
	if s == nil {
		s = w.newStmt(true, qs...)
	}
	x := w.newRows(s)
	x.pipe = rows
	x.started = true
	w.columns(x, qs[0])
}

func (w *vsWorld) stmtQueryPipeline(s *vsStmt) {
	ps := []map[string]interface{}{}
	for range s.qs {
		ps = append(ps, w.args())
	}
	bad := -1
	if w.r.Intn(10) == 0 {
		ps = append(ps, nil)
	} else if len(s.qs) > 0 && w.r.Intn(10) == 0 {
		bad = w.r.Intn(len(s.qs))
		ps[bad] = w.badArgs()
	}
	w.begin("stmt.QueryPipeline %d bad %d", len(s.qs), bad)
	why := s.busy(w)
	rows, err := s.pipe.QueryPipeline(ps...)
	if why != "" {
		w.refused(err, why)
		return
	}
	w.queryPipeline(s, s.qs, ps, bad, rows, err)
}

func (w *vsWorld) opQueryPipeline() {
	qs, names, ps := w.queries()
	bad := -1
	if w.r.Intn(10) == 0 {
		ps = append(ps, nil)
	} else if len(qs) > 0 && w.r.Intn(10) == 0 {
		bad = w.r.Intn(len(qs))
		ps[bad] = w.badArgs()
	}
	w.begin("QueryPipeline %d bad %d", len(qs), bad)
	why := w.busy()
	rows, err := w.c.QueryPipeline(names, ps...)
	if why != "" {
		w.refused(err, why)
		return
	}
	w.queryPipeline(nil, qs, ps, bad, rows, err)
}

func (w *vsWorld) pickRows() *vsRows {
	if len(w.rowss) == 0 {
		return nil
	}
	if w.stmt != nil && w.stmt.rows != nil && w.r.Intn(8) > 0 {
		return w.stmt.rows
	}
	return w.rowss[w.r.Intn(len(w.rowss))]
}

func (w *vsWorld) opNext() {
	x := w.pickRows()
	if x == nil {
		return
	}
	if x.pipe != nil {
		w.nextPipeline(x)
		return
	}
	w.next(x)
}

func (w *vsWorld) next(x *vsRows) bool {
	a := x.stmt.qs[0]
	w.begin("Next %.10s %d", a.q, x.pos)
	var row []interface{}
	var meta map[string]interface{}
	var err error
	sql := w.r.Intn(4) == 0
	if sql {
		dest := make([]driver.Value, len(a.cols))
		if err = x.neo.(driver.Rows).Next(dest); err == nil && x.started && x.pos < len(a.recs) && !x.closed {
			row = a.recs[x.pos]
		} else if err == nil && !x.started && len(a.recs) > 0 {
			row = a.recs[0]
		}
		if err == nil {
			for i := range dest {
				if i < len(row) && !vsSQLValue(dest[i], row[i]) {
					w.fail("C18 C13", "value %d is %#v, the server sent %#v", i, dest[i], row[i])
				}
			}
		}
		meta = a.summary
	} else {
		row, meta, err = x.neo.NextNeo()
	}
	if x.closed {
		w.refused(err, "closed rows")
		return false
	}
	want := []vfReq{}
	if !x.started {
		x.started = true
		want = append(want, vsPull())
	}
	switch {
	case x.finished:
		w.quiet("C13 C20 C08")
		if x.eof && err != io.EOF {
			w.fail("C13", "%v instead of the end of the rows", err)
		} else if err == nil || row != nil {
			w.fail("C13", "a row after the end: %v %v", row, err)
		}
		return false
	case x.pos < len(a.recs):
		w.sent("C20", false, want...)
		if err != nil || !reflect.DeepEqual(row, a.recs[x.pos]) {
			w.fail("C13 C08", "row %d is %v, %v instead of %v", x.pos, row, vsInner(err), a.recs[x.pos])
		}
		x.pos++
		return true
	case a.pullFail != nil:
		x.finished = true
		w.sent("C20 C09", true, want...)
		w.failure(err, a.pullFail)
		return false
	}
	x.finished, x.eof = true, true
	w.sent("C20", false, want...)
	if err != io.EOF || row != nil || !vsEqual(meta, a.summary) {
		w.fail("C13 C08", "the rows end with %v, %v, %v instead of the summary %v and the end of file", row, meta, err, a.summary)
	}
	return false
}

func (w *vsWorld) nextPipeline(x *vsRows) {
	a := x.stmt.qs[x.idx]
	w.begin("NextPipeline set %d pos %d", x.idx, x.pos)
	row, meta, next, err := x.pipe.NextPipeline()
	if x.closed {
		w.refused(err, "closed rows")
		return
	}
	switch {
	case x.finished:
		w.quiet("C13 C14 C20 C08")
		if x.eof && err != io.EOF {
			w.fail("C13 C14", "%v instead of the end of the rows", err)
		} else if err == nil || row != nil {
			w.fail("C13 C14", "a row after the end: %v %v", row, err)
		}
	case x.pos < len(a.recs):
		w.sent("C20", false)
		if err != nil || !reflect.DeepEqual(row, a.recs[x.pos]) {
			w.fail("C14 C13 C08", "row %d of set %d is %v, %v instead of %v", x.pos, x.idx, row, vsInner(err), a.recs[x.pos])
		}
		x.pos++
	case a.pullFail != nil:
		x.finished = true
		w.sent("C20 C09", true)
		w.failure(err, a.pullFail)
	case x.idx == len(x.stmt.qs)-1:
		x.finished, x.eof = true, true
		w.sent("C20", false)
		if err != nil && err != io.EOF || row != nil || !vsNilIface(next) {
			w.fail("C14 C13 C08", "the last set ends with %v, %v, %v", row, next, vsInner(err))
		}
	default:
		b := x.stmt.qs[x.idx+1]
		if b.runFail != nil {
			x.finished = true
			w.sent("C20 C09", true)
			w.failure(err, b.runFail)
			return
		}
		w.sent("C20", false)
		if err != nil || row != nil || vsNilIface(next) || !vsEqual(meta, b.runMeta()) {
			w.fail("C14 C13 C08", "set %d ends with %v, %v, %v, %v instead of the metadata %v and the next set", x.idx, row, meta, next, vsInner(err), b.runMeta())
			return
		}
		x.closed = true // dead: the next set has taken over
		y := w.newRows(x.stmt)
		y.pipe, y.idx, y.started = next, x.idx+1, true
		w.columns(y, b)
	}
}

func (w *vsWorld) opAll() {
	x := w.pickRows()
	if x == nil || x.neo == nil {
		return
	}
	a := x.stmt.qs[0]
	if !x.closed && !x.finished {
		for _, r := range a.recs {
			if r == nil {
				return
			}
		}
	}
	w.begin("All %.10s", a.q)
	recs, sum, err := x.neo.All()
	if x.closed {
		w.refused(err, "closed rows")
		return
	}
	want := []vfReq{}
	if !x.started {
		x.started = true
		want = append(want, vsPull())
	}
	if x.finished {
		w.quiet("C13 C20 C08")
		if len(recs) > 0 {
			w.fail("C13", "records after the end: %v", recs)
		}
		return
	}
	x.finished = true
	if a.pullFail != nil {
		w.sent("C20 C09", true, want...)
		w.failure(err, a.pullFail)
		return
	}
	x.eof = true
	w.sent("C20", false, want...)
	if err != nil {
		w.fail("C13 C08", "fetching all rows failed: %v", vsInner(err))
		return
	}
	w.records(recs, a.recs[x.pos:])
	if !vsEqual(sum, a.summary) {
		w.fail("C13 C08", "the summary is %v instead of %v", sum, a.summary)
	}
}

// rest is what closing the rows meets: the failure among the responses left, and
// the requests it sends.
func (x *vsRows) rest() (fail map[string]interface{}, want []vfReq) {
	if x.closed || x.finished {
		return
	}
	if !x.started {
		return x.stmt.qs[0].pullFail, []vfReq{{vfDISCARD, nil}}
	}
	for i := x.idx; i < len(x.stmt.qs); i++ {
		if i > x.idx && fail == nil {
			fail = x.stmt.qs[i].runFail
		}
		if fail == nil {
			fail = x.stmt.qs[i].pullFail
		}
	}
	return
}

func (w *vsWorld) dropRows(x *vsRows) {
	if x.closed {
		return
	}
	x.closed, x.finished = true, true
	x.stmt.rows = nil
	if x.stmt.direct {
		x.stmt.closed = true
		w.stmt = nil
	}
}

func (w *vsWorld) dropStmt(s *vsStmt) {
	if s.closed {
		return
	}
	if s.rows != nil {
		w.dropRows(s.rows)
	}
	s.closed = true
	w.stmt = nil
}

// closed checks a close that met fail.
func (w *vsWorld) closing(err error, fail map[string]interface{}, want []vfReq) {
	w.sent("C20 C08 C09 C11", fail != nil, want...)
	if fail != nil {
		w.failure(err, fail)
	} else if err != nil {
		w.fail("C11 C08", "closing failed: %v", vsInner(err))
	}
}

func (w *vsWorld) opRowsClose() {
	x := w.pickRows()
	if x == nil {
		return
	}
	w.begin("rows.Close")
	fail, want := x.rest()
	again := x.closed
	var err error
	if x.neo != nil {
		err = x.neo.Close()
	} else {
		err = x.pipe.Close()
	}
	if again {
		w.quiet("C11 C20 C08")
		if err != nil {
			w.fail("C11", "closing again failed: %v", err)
		}
		return
	}
	w.dropRows(x)
	w.closing(err, fail, want)
}

func (w *vsWorld) opStmtClose() {
	s := w.pickStmt()
	if s == nil {
		return
	}
	w.begin("stmt.Close")
	var fail map[string]interface{}
	var want []vfReq
	if !s.closed && s.rows != nil {
		fail, want = s.rows.rest()
	}
	again := s.closed
	var err error
	if s.neo != nil {
		err = s.neo.Close()
	} else {
		err = s.pipe.Close()
	}
	if again {
		w.quiet("C11 C20 C08")
		if err != nil {
			w.fail("C11", "closing again failed: %v", err)
		}
		return
	}
	w.dropStmt(s)
	w.closing(err, fail, want)
}

func (w *vsWorld) txAnswers(q string) *vfAns {
	a := &vfAns{q: q, cols: []interface{}{}}
	switch w.r.Intn(7) {
	case 0:
		a.runFail = map[string]interface{}{"code": "Neo.tx", "message": q + " refused"}
	case 1:
		a.pullFail = map[string]interface{}{"code": "Neo.tx", "message": q + " failed"}
	}
	w.f.answers[q] = a
	return a
}

func (a *vfAns) fails() map[string]interface{} {
	if a.runFail != nil {
		return a.runFail
	}
	return a.pullFail
}

func (w *vsWorld) opBegin() {
	a := w.txAnswers("BEGIN")
	w.begin("Begin")
	why := w.busy()
	tx, err := w.c.Begin()
	if w.tx != nil && why == "" {
		if err == nil {
			w.fail("C12", "a second Begin was accepted")
		}
		w.quiet("C12 C20")
		return
	}
	if why != "" {
		w.refused(err, why)
		return
	}
	w.sent("C12 C20", a.fails() != nil, vsRun("BEGIN", nil), vsPull())
	if a.fails() != nil {
		if err == nil {
			w.fail("C12", "Begin succeeded, but the server refused")
		}
		w.failure(err, a.fails())
		return
	}
	if err != nil {
		w.fail("C12 C08 C09", "Begin failed without a reason: %v", vsInner(err))
		return
	}
	w.tx = &vsTx{tx: tx}
	w.txs = append(w.txs, w.tx)
}

func (w *vsWorld) opTxEnd() {
	if len(w.txs) == 0 {
		return
	}
	x := w.txs[w.r.Intn(len(w.txs))]
	if w.tx != nil && w.r.Intn(4) > 0 {
		x = w.tx
	}
	q := "COMMIT"
	if w.r.Intn(2) == 0 {
		q = "ROLLBACK"
	}
	a := w.txAnswers(q)
	w.begin(q)
	var fail map[string]interface{}
	var want []vfReq
	if w.stmt != nil && w.stmt.rows != nil && !x.done && !w.closed {
		fail, want = w.stmt.rows.rest()
	}
	var err error
	if q == "COMMIT" {
		err = x.tx.Commit()
	} else {
		err = x.tx.Rollback()
	}
	if x.done || w.closed {
		if err == nil {
			w.fail("C12", "%s succeeded on a transaction that is over", q)
		}
		w.quiet("C12 C20")
		return
	}
	if w.stmt != nil {
		w.dropStmt(w.stmt)
	}
	if fail != nil {
		w.sent("C12 C20", true, want...)
		w.failure(err, fail)
		return
	}
	w.sent("C12 C20", a.fails() != nil, append(want, vsRun(q, nil), vsPull())...)
	if a.fails() != nil {
		if err == nil {
			w.fail("C12", "%s succeeded, but the server refused", q)
		}
		w.failure(err, a.fails())
		return
	}
	if err != nil {
		w.fail("C12 C08 C09", "%s failed without a reason: %v", q, vsInner(err))
		return
	}
	x.done = true
	w.tx = nil
}

func (w *vsWorld) opConnClose() {
	if !w.closed && w.ops < 15 && w.r.Intn(5) > 0 {
		return
	}
	a := w.txAnswers("ROLLBACK")
	w.begin("conn.Close")
	w.f.ackFail = 0
	again := w.closed
	var fail map[string]interface{}
	var want []vfReq
	if !w.closed && w.stmt != nil && w.stmt.rows != nil {
		fail, want = w.stmt.rows.rest()
	}
	err := w.c.Close()
	if again {
		w.quiet("C11 C20 C08")
		if err != nil {
			w.fail("C11", "closing again failed: %v", err)
		}
		return
	}
	w.closed = true
	if w.f.closed != 1 {
		w.fail("C15 C16", "the socket was closed %d times", w.f.closed)
	}
	if w.stmt != nil {
		w.dropStmt(w.stmt)
	}
	if fail != nil { // the connection is not used again after that
		w.failure(err, fail)
	} else if w.tx != nil {
		w.sent("C12 C20", a.fails() != nil, append(want, vsRun("ROLLBACK", nil), vsPull())...)
		if a.fails() != nil {
			w.failure(err, a.fails())
		} else if err != nil {
			w.fail("C12", "closing failed: %v", vsInner(err))
		}
	} else {
		w.closing(err, fail, want)
	}
	w.tx = nil
}

func (w *vsWorld) run(n int) {
	defer func() {
		if r := recover(); r != nil {
			w.fail("C08 C09 C10 C11 C12 C13 C14 C18 C20", "panic: %v", r)
		}
	}()
	ops := []func(){w.opPrepare, w.opPrepare, w.opPreparePipeline, w.opExec, w.opStmtExec, w.opStmtQuery, w.opStmtQuery, w.opStmtQuery,
		w.opQuery, w.opQuery, w.opQueryAll, w.opExecPipeline, w.opQueryPipeline, w.opQueryPipeline, w.opNext, w.opNext, w.opNext, w.opNext, w.opNext, w.opNext,
		w.opAll, w.opRowsClose, w.opRowsClose, w.opStmtClose, w.opBegin, w.opBegin, w.opTxEnd, w.opConnClose}
	for i := 0; i < n && !w.stop; i++ {
		ops[w.r.Intn(len(ops))]()
		w.end()
	}
}

// vsSessions runs random histories for the property.
func vsSessions(t *testing.T, prop string) {
	n := 6000
	if vfThorough() {
		n = 40000
	}
	r := vfRand()
	for i := 0; i < n; i++ {
		seed := r.Int63()
		w := newWorld(t, prop, fmt.Sprint("session ", seed), rand.New(rand.NewSource(seed)))
		w.run(40)
		if t.Failed() {
			break
		}
	}
	fmt.Println("VERIF-CASES", n)
}
