package golangNeo4jBoltDriver

// A Bolt server kept in memory, written from the protocol alone: it unchunks and
// decodes the requests with its own PackStream code, keeps the request log, and
// answers like a conforming server.  It notices when the client waits for a
// response that is not owed, and can fail any transfer at any byte.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"time"
)

func vfRand() *rand.Rand {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(seed + 17))
}

func vfThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vfS is a PackStream structure.
type vfS struct {
	sig byte
	f   []interface{}
}

func vfHdr(n int, tiny, m8, m16, m32 byte) []byte {
	switch {
	case tiny != 0 && n < 16:
		return []byte{tiny + byte(n)}
	case n < 256 && m8 != 0:
		return []byte{m8, byte(n)}
	case n < 65536:
		return []byte{m16, byte(n >> 8), byte(n)}
	}
	return []byte{m32, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func vfPack(v interface{}) []byte {
	switch v := v.(type) {
	case nil:
		return []byte{0xC0}
	case bool:
		if v {
			return []byte{0xC3}
		}
		return []byte{0xC2}
	case int:
		return vfPack(int64(v))
	case int64:
		switch {
		case v >= -16 && v < 128:
			return []byte{byte(v)}
		case v >= math.MinInt8 && v < 0:
			return []byte{0xC8, byte(v)}
		case v >= math.MinInt16 && v <= math.MaxInt16:
			return []byte{0xC9, byte(v >> 8), byte(v)}
		case v >= math.MinInt32 && v <= math.MaxInt32:
			b := []byte{0xCA, 0, 0, 0, 0}
			binary.BigEndian.PutUint32(b[1:], uint32(v))
			return b
		}
		b := make([]byte, 9)
		b[0] = 0xCB
		binary.BigEndian.PutUint64(b[1:], uint64(v))
		return b
	case float64:
		b := make([]byte, 9)
		b[0] = 0xC1
		binary.BigEndian.PutUint64(b[1:], math.Float64bits(v))
		return b
	case string:
		return append(vfHdr(len(v), 0x80, 0xD0, 0xD1, 0xD2), v...)
	case []interface{}:
		b := vfHdr(len(v), 0x90, 0xD4, 0xD5, 0xD6)
		for _, x := range v {
			b = append(b, vfPack(x)...)
		}
		return b
	case map[string]interface{}:
		b := vfHdr(len(v), 0xA0, 0xD8, 0xD9, 0xDA)
		for _, k := range vfKeys(v) {
			b = append(b, vfPack(k)...)
			b = append(b, vfPack(v[k])...)
		}
		return b
	case vfS:
		b := []byte{0xB0 + byte(len(v.f)), v.sig}
		for _, x := range v.f {
			b = append(b, vfPack(x)...)
		}
		return b
	case vfRaw:
		return v
	}
	panic(fmt.Sprintf("vfPack: %T", v))
}

// vfRaw is sent as it is.
type vfRaw []byte

func vfKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var errShort = errors.New("truncated value")

func vfUnpack(b []byte) (v interface{}, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	m := b[0]
	b = b[1:]
	take := func(n int) []byte {
		if n < 0 || len(b) < n {
			err = errShort
			return make([]byte, 8)
		}
		x := b[:n]
		b = b[n:]
		return x
	}
	size := func(n int) int {
		x := 0
		for _, c := range take(n)[:n] {
			x = x<<8 | int(c)
		}
		return x
	}
	list := func(n int) []interface{} {
		out := []interface{}{}
		for i := 0; i < n && err == nil; i++ {
			var x interface{}
			if x, b, err = vfUnpack(b); err == nil {
				out = append(out, x)
			}
		}
		return out
	}
	dict := func(n int) map[string]interface{} {
		out := map[string]interface{}{}
		l := list(2 * n)
		for i := 0; i+1 < len(l); i += 2 {
			k, ok := l[i].(string)
			if !ok {
				err = errors.New("map key is not a string")
				return out
			}
			if _, dup := out[k]; dup {
				err = errors.New("map key repeated")
			}
			out[k] = l[i+1]
		}
		return out
	}
	str := func(n int) string {
		x := take(n)
		if err != nil {
			return ""
		}
		return string(x)
	}
	switch {
	case m < 0x80 || m >= 0xF0:
		v = int64(int8(m))
	case m < 0x90:
		v = str(int(m & 15))
	case m < 0xA0:
		v = list(int(m & 15))
	case m < 0xB0:
		v = dict(int(m & 15))
	case m < 0xC0:
		sig := take(1)[0]
		v = vfS{sig, list(int(m & 15))}
	case m == 0xC0:
		v = nil
	case m == 0xC1:
		v = math.Float64frombits(binary.BigEndian.Uint64(take(8)))
	case m == 0xC2, m == 0xC3:
		v = m == 0xC3
	case m == 0xC8:
		v = int64(int8(take(1)[0]))
	case m == 0xC9:
		v = int64(int16(binary.BigEndian.Uint16(take(2))))
	case m == 0xCA:
		v = int64(int32(binary.BigEndian.Uint32(take(4))))
	case m == 0xCB:
		v = int64(binary.BigEndian.Uint64(take(8)))
	case m == 0xD0:
		v = str(size(1))
	case m == 0xD1:
		v = str(size(2))
	case m == 0xD2:
		v = str(size(4))
	case m == 0xD4:
		v = list(size(1))
	case m == 0xD5:
		v = list(size(2))
	case m == 0xD6:
		v = list(size(4))
	case m == 0xD8:
		v = dict(size(1))
	case m == 0xD9:
		v = dict(size(2))
	case m == 0xDA:
		v = dict(size(4))
	default:
		err = fmt.Errorf("unknown marker %x", m)
	}
	return v, b, err
}

func vfChunks(msg []byte, size int) (out []byte) {
	for len(msg) > 0 {
		n := len(msg)
		if size > 0 && n > size {
			n = size
		}
		if n > 65535 {
			n = 65535
		}
		out = append(out, byte(n>>8), byte(n))
		out = append(out, msg[:n]...)
		msg = msg[n:]
	}
	return append(out, 0, 0)
}

const (
	vfINIT    = 0x01
	vfACK     = 0x0E
	vfRESET   = 0x0F
	vfRUN     = 0x10
	vfDISCARD = 0x2F
	vfPULL    = 0x3F
	vfSUCCESS = 0x70
	vfRECORD  = 0x71
	vfIGNORED = 0x7E
	vfFAILURE = 0x7F
)

var vfNames = map[byte]string{vfINIT: "INIT", vfACK: "ACK_FAILURE", vfRESET: "RESET", vfRUN: "RUN", vfDISCARD: "DISCARD_ALL", vfPULL: "PULL_ALL"}
var vfArity = map[byte]int{vfINIT: 2, vfACK: 0, vfRESET: 0, vfRUN: 2, vfDISCARD: 0, vfPULL: 0}

// vfAns is how the server answers a query.
type vfAns struct {
	q        string
	cols     []interface{}
	recs     [][]interface{}
	meta     map[string]interface{} // of the RUN success, besides the fields
	summary  map[string]interface{}
	runFail  map[string]interface{} // RUN fails with this
	pullFail map[string]interface{} // PULL_ALL fails after the records with this
}

func (a *vfAns) runMeta() map[string]interface{} {
	m := map[string]interface{}{"fields": a.cols}
	for k, v := range a.meta {
		m[k] = v
	}
	return m
}

type vfReq struct {
	sig byte
	f   []interface{}
}

func (r vfReq) String() string {
	s := vfNames[r.sig]
	if s == "" {
		s = fmt.Sprintf("message %x", r.sig)
	}
	if len(r.f) > 0 {
		s += fmt.Sprintf("%.200v", fmt.Sprint(r.f))
	}
	return s
}

type vfServer struct {
	shakes  []byte // the handshake still expected, nil: done
	hello   []byte // the handshake as received
	version []byte
	raw     []byte
	msg     []byte
	chunks  int
	out     []byte
	reqs    []vfReq
	bad     []string // protocol violations of the client
	failed  bool
	cur     *vfAns // streaming
	answers map[string]*vfAns
	outSize int // chunk size of the responses

	initAns  []byte // raw response to INIT, nil: success
	ackFail  int    // so many ACK_FAILUREs are answered with a failure
	rstFail  int    // so many RESETs
	ackJunk  []byte // raw response to the next ACK_FAILURE
	replyFor func(vfReq) []byte
}

func newVfServer(shake bool) *vfServer {
	s := &vfServer{answers: map[string]*vfAns{}, version: []byte{0, 0, 0, 1}}
	if shake {
		s.shakes = make([]byte, 20)
	}
	return s
}

func (s *vfServer) violate(f string, a ...interface{}) { s.bad = append(s.bad, fmt.Sprintf(f, a...)) }

func (s *vfServer) feed(p []byte) {
	s.raw = append(s.raw, p...)
	if s.shakes != nil {
		if len(s.raw) < 20 {
			return
		}
		s.hello = append([]byte(nil), s.raw[:20]...)
		s.raw = s.raw[20:]
		s.shakes = nil
		s.out = append(s.out, s.version...)
	}
	for len(s.raw) >= 2 {
		n := int(s.raw[0])<<8 | int(s.raw[1])
		if len(s.raw) < 2+n {
			return
		}
		s.msg = append(s.msg, s.raw[2:2+n]...)
		s.raw = s.raw[2+n:]
		if n > 0 {
			continue
		}
		m := s.msg
		s.msg = nil
		v, rest, err := vfUnpack(m)
		st, ok := v.(vfS)
		if err != nil || len(rest) > 0 || !ok {
			s.violate("the request % x is not a message (%v)", m, err)
			continue
		}
		s.handle(vfReq{st.sig, st.f})
	}
}

func (s *vfServer) send(sig byte, f ...interface{}) {
	s.out = append(s.out, vfChunks(vfPack(vfS{sig, f}), s.outSize)...)
}

func (s *vfServer) handle(r vfReq) {
	s.reqs = append(s.reqs, r)
	if s.replyFor != nil {
		if b := s.replyFor(r); b != nil {
			s.out = append(s.out, b...)
			return
		}
	}
	if n, ok := vfArity[r.sig]; !ok || n != len(r.f) {
		s.violate("%v: unknown signature or wrong number of fields", r)
	}
	if r.sig == vfRESET {
		if s.rstFail > 0 {
			s.rstFail--
			s.send(vfFAILURE, map[string]interface{}{"code": "reset"})
			return
		}
		s.failed, s.cur = false, nil
		s.send(vfSUCCESS, map[string]interface{}{})
		return
	}
	if s.failed {
		if r.sig != vfACK {
			s.send(vfIGNORED)
			return
		}
		if s.ackJunk != nil {
			s.out = append(s.out, s.ackJunk...)
			s.ackJunk = nil
			return
		}
		if s.ackFail > 0 {
			s.ackFail--
			s.send(vfFAILURE, map[string]interface{}{"code": "ack"})
			return
		}
		s.failed, s.cur = false, nil
		s.send(vfSUCCESS, map[string]interface{}{})
		return
	}
	switch r.sig {
	case vfINIT:
		if s.initAns != nil {
			s.out = append(s.out, s.initAns...)
			return
		}
		s.send(vfSUCCESS, map[string]interface{}{"server": "fake"})
	case vfRUN:
		if s.cur != nil {
			s.violate("RUN while the records of %q are not asked for", s.cur.q)
		}
		q, ok := "", len(r.f) == 2
		if ok {
			q, ok = r.f[0].(string)
		}
		if !ok {
			s.violate("%v: no query", r)
		} else if _, ok := r.f[1].(map[string]interface{}); !ok {
			s.violate("%v: no parameters", r)
		}
		a := s.answers[q]
		if a == nil {
			a = &vfAns{q: q, cols: []interface{}{}}
		}
		if a.runFail != nil {
			s.failed = true
			s.send(vfFAILURE, a.runFail)
			return
		}
		s.cur = a
		s.send(vfSUCCESS, a.runMeta())
	case vfPULL, vfDISCARD:
		a := s.cur
		s.cur = nil
		if a == nil {
			s.violate("%v without a query", r)
			s.failed = true
			s.send(vfFAILURE, map[string]interface{}{"code": "no query"})
			return
		}
		if r.sig == vfPULL {
			for _, x := range a.recs {
				if x == nil {
					x = []interface{}{}
				}
				s.send(vfRECORD, x)
			}
		}
		if a.pullFail != nil {
			s.failed = true
			s.send(vfFAILURE, a.pullFail)
			return
		}
		m := a.summary
		if m == nil {
			m = map[string]interface{}{}
		}
		s.send(vfSUCCESS, m)
	default:
		s.violate("%v in the ready state", r)
		s.failed = true
		s.send(vfFAILURE, map[string]interface{}{"code": "unexpected"})
	}
}

// vfFault makes the transfer that reaches byte at fail.
type vfFault struct {
	write bool
	at    int
	err   error
	fired bool
	// transient: only this one transfer fails
	transient bool
}

type vfTimeout struct{}

func (vfTimeout) Error() string   { return "fake i/o timeout" }
func (vfTimeout) Timeout() bool   { return true }
func (vfTimeout) Temporary() bool { return true }

// vfConn connects the driver to the server in memory.
type vfConn struct {
	*vfServer
	split     func() int // at most so many bytes per read
	fault     *vfFault
	nr, nw    int
	overread  int
	closed    int
	after     int // transfers after Close or after the fault
	rdl, wdl  time.Time
	rset      bool
	wset      bool
	deadlines []string      // transfers without the right deadline
	timeout   time.Duration // expected, 0: not checked
	armAfter  int           // so many deadlines are set, the next fails; -1: never
	armFailed bool
	reads     int
	writes    int
}

func newVfConn() *vfConn { return &vfConn{vfServer: newVfServer(false), armAfter: -1} }

func (c *vfConn) broke() bool { return c.armFailed || c.fault != nil && c.fault.fired }

func (c *vfConn) arm() error {
	if c.armAfter == 0 {
		c.armFailed = true
		return errors.New("fake: cannot set the deadline")
	}
	if c.armAfter > 0 {
		c.armAfter--
	}
	return nil
}

func (c *vfConn) deadline(what string, set *bool, d time.Time) {
	if c.timeout == 0 {
		return
	}
	if !*set {
		c.deadlines = append(c.deadlines, fmt.Sprintf("%s %d: no deadline was set for it", what, c.reads+c.writes))
	} else if left := time.Until(d); left > c.timeout || left < c.timeout-2*time.Second {
		c.deadlines = append(c.deadlines, fmt.Sprintf("%s %d: the deadline is in %v, the timeout is %v", what, c.reads+c.writes, left, c.timeout))
	}
	*set = false
}

func (c *vfConn) Write(p []byte) (int, error) {
	c.writes++
	c.deadline("write", &c.wset, c.wdl)
	if c.closed > 0 {
		c.after++
		return 0, errors.New("fake: write on a closed socket")
	}
	if f := c.fault; f != nil && (f.fired && !f.transient || !f.fired && f.write && c.nw+len(p) > f.at) {
		if f.fired {
			c.after++
			return 0, f.err
		}
		f.fired = true
		n := f.at - c.nw
		c.nw += n
		c.feed(append([]byte(nil), p[:n]...))
		return n, f.err
	}
	c.nw += len(p)
	c.feed(append([]byte(nil), p...))
	return len(p), nil
}

func (c *vfConn) Read(p []byte) (int, error) {
	c.reads++
	c.deadline("read", &c.rset, c.rdl)
	if c.closed > 0 {
		c.after++
		return 0, errors.New("fake: read on a closed socket")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f := c.fault; f != nil && f.fired && !f.transient {
		c.after++
		return 0, f.err
	}
	n := len(c.out)
	if n > len(p) {
		n = len(p)
	}
	if c.split != nil {
		if k := c.split(); k < n && k > 0 {
			n = k
		}
	}
	if f := c.fault; f != nil && !f.fired && !f.write && c.nr+n > f.at {
		if n = f.at - c.nr; n <= 0 {
			f.fired = true
			return 0, f.err
		}
	}
	if n == 0 {
		c.overread++
		return 0, vfTimeout{}
	}
	copy(p, c.out[:n])
	c.out = c.out[n:]
	c.nr += n
	return n, nil
}

func (c *vfConn) Close() error {
	c.closed++
	return nil
}

func (c *vfConn) LocalAddr() net.Addr  { return &net.TCPAddr{} }
func (c *vfConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c *vfConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *vfConn) SetReadDeadline(t time.Time) error {
	c.rdl, c.rset = t, true
	return c.arm()
}
func (c *vfConn) SetWriteDeadline(t time.Time) error {
	c.wdl, c.wset = t, true
	return c.arm()
}

var _ net.Conn = &vfConn{}
var _ = io.EOF
