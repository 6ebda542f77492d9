package golangNeo4jBoltDriver

// Properties of opening connections, of the pool and of TLS, against servers on
// the loopback interface.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"database/sql/driver"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// vfPeer is the server's end of one socket.
type vfPeer struct {
	mu     sync.Mutex
	srv    *vfServer
	c      net.Conn
	eof    chan bool // closed when the client closed the socket
	tls    *tls.ConnectionState
	killed bool
}

func (p *vfPeer) locked(f func()) {
	p.mu.Lock()
	defer p.mu.Unlock()
	f()
}

func (p *vfPeer) reqs() []vfReq {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]vfReq(nil), p.srv.reqs...)
}

func (p *vfPeer) kill() {
	p.locked(func() { p.killed = true })
	p.c.Close()
}

// gone waits until the client has closed its end.
func (p *vfPeer) gone() bool {
	select {
	case <-p.eof:
		return true
	case <-time.After(3 * time.Second):
		return false
	}
}

func (p *vfPeer) open() bool {
	select {
	case <-p.eof:
		return false
	default:
		return true
	}
}

type vfHost struct {
	l     net.Listener
	addr  string
	mu    sync.Mutex
	peers []*vfPeer
	setup func(i int, p *vfPeer) // before the peer is served
	slow  time.Duration          // between the bytes of the handshake reply
	cut   func(i int) int        // close after so many bytes sent, -1: never
	mute  bool                   // never answers
	tls   *tls.Config
}

func (h *vfHost) all() []*vfPeer {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]*vfPeer(nil), h.peers...)
}

func (h *vfHost) last() *vfPeer {
	// the client may be ahead of the accepting goroutine
	for i := 0; i < 300; i++ {
		if a := h.all(); len(a) > 0 {
			return a[len(a)-1]
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}

func vfServe(t *testing.T, h *vfHost) *vfHost {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatalf("no loopback: %v", err)
	}
	h.l, h.addr = l, l.Addr().String()
	go func() {
		for i := 0; ; i++ {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p := &vfPeer{srv: newVfServer(true), c: c, eof: make(chan bool)}
			if h.setup != nil {
				h.setup(i, p)
			}
			h.mu.Lock()
			h.peers = append(h.peers, p)
			h.mu.Unlock()
			go h.serve(i, p)
		}
	}()
	return h
}

func (h *vfHost) serve(i int, p *vfPeer) {
	defer p.c.Close()
	defer close(p.eof)
	raw := p.c
	if h.tls != nil {
		s := tls.Server(raw, h.tls)
		if s.Handshake() != nil {
			return
		}
		st := s.ConnectionState()
		p.locked(func() { p.tls = &st })
		p.c = s
	}
	cut := -1
	if h.cut != nil {
		cut = h.cut(i)
	}
	buf := make([]byte, 65536)
	first := true
	for {
		n, err := p.c.Read(buf)
		if err != nil {
			p.mu.Lock()
			k := p.killed
			p.mu.Unlock()
			if k {
				// our end is closed: the client's end cannot be seen any more
				select {}
			}
			return
		}
		if h.mute {
			continue
		}
		var out []byte
		p.locked(func() {
			p.srv.feed(buf[:n])
			out = p.srv.out
			p.srv.out = nil
		})
		if cut >= 0 && len(out) >= cut {
			p.c.Write(out[:cut])
			if tc, ok := raw.(*net.TCPConn); ok {
				tc.CloseWrite()
			}
			cut, h := -1, h
			_ = h
			for { // wait for the client to close
				if _, err := p.c.Read(buf); err != nil {
					return
				}
			}
			_ = cut
		}
		if cut >= 0 {
			cut -= len(out)
		}
		if first && h.slow > 0 && len(out) > 0 {
			for len(out) > 1 {
				p.c.Write(out[:1])
				out = out[1:]
				time.Sleep(h.slow)
			}
		}
		if len(out) > 0 {
			first = false
			if _, err := p.c.Write(out); err != nil {
				return
			}
		}
	}
}

// vfTimed runs f, which must return in time.
func vfTimed(t *testing.T, what string, d time.Duration, f func()) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
		return r == nil
	case <-time.After(d):
		t.Errorf("%s: not finished after %v", what, d)
		return false
	}
}

var vfHello = []byte{0x60, 0x60, 0xB0, 0x17, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}

// vfOpeners open a connection in every way.
func vfOpeners() map[string]func(string) (interface{}, error) {
	return map[string]func(string) (interface{}, error){
		"OpenNeo": func(s string) (interface{}, error) { return NewDriver().OpenNeo(s) },
		"Open":    func(s string) (interface{}, error) { return NewDriver().Open(s) },
		"OpenPool": func(s string) (interface{}, error) {
			p, err := NewDriverPool(s, 2)
			if err != nil {
				return nil, err
			}
			return p.OpenPool()
		},
	}
}

func TestVerifC07(t *testing.T) {
	n := 0
	creds := []struct{ url, user, pass string }{{"", "", ""}, {"neo:secret@", "neo", "secret"}, {"neo:@", "neo", ""}, {"a%40b:p%3Aq%2F@", "a@b", "p:q/"}}
	for name, open := range vfOpeners() {
		for i, cr := range creds {
			for _, slow := range []time.Duration{0, 3 * time.Millisecond} {
				n++
				h := vfServe(t, &vfHost{slow: slow})
				what := fmt.Sprintf("%s with credentials %q, slow %v", name, cr.url, slow)
				vfTimed(t, what, 20*time.Second, func() {
					c, err := open("bolt://" + cr.url + h.addr + "?timeout=10")
					if err != nil || vsNilIface(c) {
						t.Errorf("%s: %v, %v", what, c, vsInner(err))
						return
					}
					p := h.last()
					p.locked(func() {
						if !bytes.Equal(p.srv.hello, vfHello) {
							t.Errorf("%s: the handshake is % x", what, p.srv.hello)
						}
					})
					auth := map[string]interface{}{"scheme": "none"}
					if cr.user != "" {
						auth = map[string]interface{}{"scheme": "basic", "principal": cr.user, "credentials": cr.pass}
					}
					if r := p.reqs(); len(r) != 1 || r[0].sig != vfINIT || !reflect.DeepEqual(r[0].f, []interface{}{ClientID, auth}) {
						t.Errorf("%s: the requests are %v", what, r)
					}
					if x, ok := c.(Conn); ok {
						if _, err := x.ExecNeo("Q", nil); err != nil {
							t.Errorf("%s: the connection does not work: %v", what, vsInner(err))
						}
					}
				})
				h.l.Close()
				_ = i
			}
		}
		// failures
		type bad struct {
			what string
			host *vfHost
		}
		raw := func(b []byte) func(int, *vfPeer) {
			return func(_ int, p *vfPeer) { p.srv.initAns = b }
		}
		ver := func(v ...byte) func(int, *vfPeer) {
			return func(_ int, p *vfPeer) { p.srv.version = v }
		}
		cut := func(k int) func(int) int { return func(int) int { return k } }
		failure := vfChunks(vfPack(vfS{vfFAILURE, []interface{}{vfMeta("code", "auth")}}), 0)
		bads := []bad{
			{"no reply to the handshake", &vfHost{cut: cut(0)}},
			{"1 byte of the version", &vfHost{cut: cut(1)}},
			{"2 bytes of the version", &vfHost{cut: cut(2)}},
			{"3 bytes of the version", &vfHost{cut: cut(3)}},
			{"end after the version", &vfHost{cut: cut(4)}},
			{"end in the INIT response", &vfHost{cut: cut(7)}},
			{"no common version", &vfHost{setup: ver(0, 0, 0, 0)}},
			{"a version that was not proposed", &vfHost{setup: ver(0, 0, 0, 2)}},
			{"something else than a Bolt server", &vfHost{setup: ver('H', 'T', 'T', 'P')}},
			{"INIT refused", &vfHost{setup: raw(failure)}},
			{"INIT ignored", &vfHost{setup: raw(vfChunks(vfPack(vfS{vfIGNORED, nil}), 0))}},
			{"a record for INIT", &vfHost{setup: raw(vfChunks(vfPack(vfS{vfRECORD, []interface{}{[]interface{}{}}}), 0))}},
			{"a number for INIT", &vfHost{setup: raw(vfChunks(vfPack(int64(1)), 0))}},
			{"a malformed INIT response", &vfHost{setup: raw([]byte{0, 2, 0xB1, 0x70, 0, 0})}},
			{"no answer at all", &vfHost{mute: true}},
		}
		for _, b := range bads {
			n++
			b, name, open := b, name, open
			h := vfServe(t, b.host)
			what := name + ": " + b.what
			to := "10"
			if b.host.mute || b.what == "INIT refused" {
				to = "1"
			}
			vfTimed(t, what, 20*time.Second, func() {
				c, err := open("bolt://" + h.addr + "?timeout=" + to)
				if err == nil || !vsNilIface(c) {
					t.Errorf("%s: a connection (%v) and the error %v", what, !vsNilIface(c), vsInner(err))
				}
				if p := h.last(); p == nil || !p.gone() {
					t.Errorf("%s: the socket stays open", what)
				}
			})
			h.l.Close()
		}
		n++
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		addr := l.Addr().String()
		l.Close()
		vfTimed(t, name+" without a server", 20*time.Second, func() {
			if c, err := open("bolt://" + addr); err == nil || !vsNilIface(c) {
				t.Errorf("%s without a server: %v, %v", name, c, err)
			}
		})
	}
	// faults at every byte of the exchange
	for dir := 0; dir < 2; dir++ {
		for at := 0; at < 90; at++ {
			n++
			f := newVfConn()
			f.vfServer = newVfServer(true)
			f.fault = &vfFault{write: dir == 1, at: at, err: vfTimeout{}}
			f.split = func() int { return 1 }
			c := createBoltConn("bolt://fake")
			c.conn = f
			what := fmt.Sprintf("fault at byte %d, write %v", at, dir == 1)
			vfGuard(t, what, func() {
				err := c.handShake()
				var resp interface{}
				if err == nil {
					resp, err = c.sendInit()
				}
				if f.fault.fired && err == nil {
					t.Errorf("%s: no error (%v)", what, resp)
				} else if !f.fault.fired && err != nil {
					t.Errorf("%s: error %v without a fault", what, vsInner(err))
				}
			})
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func vfDo(t *testing.T, what string, c Conn, tag int) {
	r, err := c.ExecNeo(fmt.Sprint("T", tag), vfMeta("tag", int64(tag)))
	if err != nil {
		t.Errorf("%s: a query on the connection of the pool fails: %v", what, vsInner(err))
		return
	}
	if !vsEqual(r.Metadata(), vfMeta("tag", int64(tag))) {
		t.Errorf("%s: a query on the connection of the pool gets the answer %v instead of %d", what, r.Metadata(), tag)
	}
}

// vfEcho answers the queries Tn with the tag n.
func vfEcho(p *vfPeer) {
	s := p.srv
	s.replyFor = func(r vfReq) []byte {
		if r.sig == vfRUN {
			if q, ok := r.f[0].(string); ok && s.answers[q] == nil {
				if m, ok := r.f[1].(map[string]interface{}); ok && m["tag"] != nil {
					s.answers[q] = &vfAns{q: q, cols: []interface{}{}, summary: vfMeta("tag", m["tag"])}
				}
			}
		}
		return nil
	}
}

// vfEndings are the states a connection of the pool is closed in.
func vfEndings() map[string]func(c Conn, p *vfPeer) {
	rows := func(p *vfPeer) {
		p.locked(func() { p.srv.answer(&vfAns{q: "R", recs: vfRecs(5, 2)}) })
	}
	return map[string]func(c Conn, p *vfPeer){
		"untouched": func(c Conn, p *vfPeer) {},
		"used":      func(c Conn, p *vfPeer) { c.ExecNeo("X", nil) },
		"with open rows": func(c Conn, p *vfPeer) {
			rows(p)
			if r, err := c.QueryNeo("R", nil); err == nil {
				r.NextNeo()
			}
		},
		"with unread rows of a statement": func(c Conn, p *vfPeer) {
			rows(p)
			if s, err := c.PrepareNeo("R"); err == nil {
				s.QueryNeo(nil)
			}
		},
		"with an open statement": func(c Conn, p *vfPeer) { c.PrepareNeo("R") },
		"with an open pipeline": func(c Conn, p *vfPeer) {
			rows(p)
			c.QueryPipeline([]string{"R", "R"}, nil, nil)
		},
		"with an open transaction": func(c Conn, p *vfPeer) { c.Begin() },
		"with a transaction and rows": func(c Conn, p *vfPeer) {
			rows(p)
			c.Begin()
			if r, err := c.QueryNeo("R", nil); err == nil {
				r.NextNeo()
			}
		},
		"after a failure": func(c Conn, p *vfPeer) {
			p.locked(func() { p.srv.answer(&vfAns{q: "F", runFail: vfMeta("code", "x")}) })
			c.ExecNeo("F", nil)
		},
		"with a transaction that cannot be rolled back": func(c Conn, p *vfPeer) {
			p.locked(func() { p.srv.answer(&vfAns{q: "ROLLBACK", runFail: vfMeta("code", "x")}) })
			c.Begin()
		},
		"with rows that end in a failure": func(c Conn, p *vfPeer) {
			p.locked(func() {
				p.srv.answer(&vfAns{q: "G", recs: vfRecs(5, 2), pullFail: vfMeta("code", "x")})
			})
			c.QueryNeo("G", nil)
		},
		"! lost after use": func(c Conn, p *vfPeer) {
			p.kill()
			c.ExecNeo("X", nil)
			c.ExecNeo("X", nil)
		},
		"! lost with open rows": func(c Conn, p *vfPeer) {
			p.locked(func() {
				p.srv.replyFor = func(r vfReq) []byte {
					if r.sig == vfPULL {
						return []byte{0, 7, 0xB1}
					}
					return nil
				}
			})
			r, err := c.QueryNeo("R", nil)
			p.kill()
			if err == nil {
				r.NextNeo()
			}
		},
		"! lost in a transaction": func(c Conn, p *vfPeer) {
			c.Begin()
			p.kill()
		},
		"! after a session that cannot be reset": func(c Conn, p *vfPeer) {
			p.locked(func() {
				p.srv.answer(&vfAns{q: "F", runFail: vfMeta("code", "x")})
				p.srv.ackFail, p.srv.rstFail = 1, 1
			})
			c.ExecNeo("F", nil)
		},
	}
}

func TestVerifC15(t *testing.T) {
	n := 0
	for _, max := range []int{1, 2} {
		for name := range vfEndings() {
			n++
			what := fmt.Sprintf("pool of %d, closed %s", max, name)
			h := vfServe(t, &vfHost{setup: func(_ int, p *vfPeer) { vfEcho(p) }})
			vfTimed(t, what, 30*time.Second, func() {
				pool, err := NewClosableDriverPool("bolt://"+h.addr+"?timeout=2", max)
				if err != nil {
					t.Errorf("%s: %v", what, err)
					return
				}
				for round := 0; round < 2*max+1; round++ {
					var cs []Conn
					ok := vfTimed(t, fmt.Sprintf("%s, round %d: opening all", what, round), 10*time.Second, func() {
						for i := 0; i < max; i++ {
							c, err := pool.OpenPool()
							if err != nil {
								t.Errorf("%s, round %d: opening %d: %v", what, round, i, vsInner(err))
								return
							}
							vfDo(t, fmt.Sprintf("%s, round %d", what, round), c, round*10+i)
							cs = append(cs, c)
						}
					})
					if !ok || t.Failed() {
						return
					}
					before := h.all()
					var mine *vfPeer // of cs[0]
					for _, p := range before {
						if r := p.reqs(); len(r) > 1 && p.open() {
							for _, x := range r {
								if x.sig == vfRUN && x.f[0] == fmt.Sprint("T", round*10) {
									mine = p
								}
							}
						}
					}
					if mine == nil {
						t.Errorf("%s: the connection is not there", what)
						return
					}
					vfEndings()[name](cs[0], mine)
					for _, c := range cs {
						c.Close()
						c.Close()
					}
					if strings.HasPrefix(name, "!") {
						used := len(mine.reqs())
						if !mine.killed && !mine.gone() {
							t.Errorf("%s: the socket of the lost connection stays open", what)
						}
						c, err := pool.OpenPool()
						if err != nil {
							t.Errorf("%s: opening again: %v", what, vsInner(err))
							return
						}
						vfDo(t, what, c, 1000+round)
						c.Close()
						if len(mine.reqs()) != used {
							t.Errorf("%s: the lost connection was handed out again", what)
						}
					}
				}
				if err := pool.Close(); err != nil {
					t.Errorf("%s: closing the pool: %v", what, vsInner(err))
				}
				for _, p := range h.all() {
					if !p.killed && !p.gone() {
						t.Errorf("%s: a socket stays open after the pool is closed", what)
					}
				}
			})
			h.l.Close()
		}
	}
	// connections that cannot be opened
	cut := func(k int) func(int) int {
		return func(i int) int {
			if i%2 == 0 {
				return k
			}
			return -1
		}
	}
	even := func(f func(p *vfPeer)) func(int, *vfPeer) {
		return func(i int, p *vfPeer) {
			vfEcho(p)
			if i%2 == 0 {
				f(p)
			}
		}
	}
	hosts := map[string]*vfHost{
		"no reply to the handshake": {cut: cut(0), setup: even(func(*vfPeer) {})},
		"half a version":            {cut: cut(2), setup: even(func(*vfPeer) {})},
		"no version":                {setup: even(func(p *vfPeer) { p.srv.version = []byte{0, 0, 0, 0} })},
		"no INIT response":          {cut: cut(4), setup: even(func(*vfPeer) {})},
		"INIT refused": {setup: even(func(p *vfPeer) {
			p.srv.initAns = vfChunks(vfPack(vfS{vfFAILURE, []interface{}{vfMeta("code", "auth")}}), 0)
		})},
		"INIT ignored": {setup: even(func(p *vfPeer) { p.srv.initAns = vfChunks(vfPack(vfS{vfIGNORED, nil}), 0) })},
	}
	for name, h := range hosts {
		for _, max := range []int{1, 2} {
			n++
			what := fmt.Sprintf("pool of %d, %s on every second attempt", max, name)
			h := vfServe(t, &vfHost{cut: h.cut, setup: h.setup})
			vfTimed(t, what, 60*time.Second, func() {
				pool, _ := NewClosableDriverPool("bolt://"+h.addr+"?timeout=1", max)
				for round := 0; round < 3*max; round++ {
					var c Conn
					var err error
					if !vfTimed(t, fmt.Sprintf("%s, attempt %d", what, 2*round), 10*time.Second, func() { c, err = pool.OpenPool() }) {
						return
					}
					if err == nil || !vsNilIface(c) {
						t.Errorf("%s: attempt %d gives a connection (%v) and the error %v", what, 2*round, c, vsInner(err))
						return
					}
					if !vfTimed(t, fmt.Sprintf("%s, attempt %d", what, 2*round+1), 10*time.Second, func() { c, err = pool.OpenPool() }) {
						return
					}
					if err != nil {
						t.Errorf("%s: attempt %d: %v", what, 2*round+1, vsInner(err))
						return
					}
					vfDo(t, what, c, round)
					pc := c.(*boltConn)
					pc.connErr = fmt.Errorf("lost") // so that the next attempt connects again
					c.Close()
				}
				pool.Close()
				for _, p := range h.all() {
					if !p.gone() {
						t.Errorf("%s: a socket stays open", what)
					}
				}
			})
			h.l.Close()
		}
	}
	// no server at first
	for _, bad := range []string{"bolt://127.0.0.1:1?timeout=1", "http://127.0.0.1:1", "bolt://127.0.0.1:1?tls=true&tls_ca_cert_file=/nonexistent"} {
		n++
		what := "pool of " + bad
		pool, err := NewDriverPool(bad, 2)
		for i := 0; i < 6 && err == nil; i++ {
			if !vfTimed(t, fmt.Sprintf("%s, attempt %d", what, i), 10*time.Second, func() {
				if c, err := pool.OpenPool(); err == nil || !vsNilIface(c) {
					t.Errorf("%s: a connection, %v", what, err)
				}
			}) {
				break
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC16(t *testing.T) {
	n := 0
	for name := range vfEndings() {
		for _, sameSlot := range []bool{false, true} {
			n++
			what := "handle closed " + name
			h := vfServe(t, &vfHost{setup: func(_ int, p *vfPeer) { vfEcho(p) }})
			vfTimed(t, what, 30*time.Second, func() {
				pool, _ := NewClosableDriverPool("bolt://"+h.addr+"?timeout=2", 1)
				a, err := pool.OpenPool()
				if err != nil {
					t.Errorf("%s: %v", what, vsInner(err))
					return
				}
				vfDo(t, what, a, 1)
				vfEndings()[name](a, h.last())
				a.Close()
				var b Conn
				if sameSlot {
					if b, err = pool.OpenPool(); err != nil {
						t.Errorf("%s: %v", what, vsInner(err))
						return
					}
					vfDo(t, what, b, 2)
				}
				count := func() (k int) {
					for _, p := range h.all() {
						k += len(p.reqs())
					}
					return
				}
				before := count()
				for call, f := range vfDead(a) {
					if err := f(); err == nil {
						t.Errorf("%s: %s on the dead handle succeeds", what, call)
					}
				}
				if err := a.Close(); err != nil {
					t.Errorf("%s: closing again: %v", what, vsInner(err))
				}
				if k := count(); k != before {
					t.Errorf("%s: %d requests through the dead handle", what, k-before)
				}
				if sameSlot {
					vfDo(t, what, b, 3)
					// closing again must not free a slot
					got := make(chan Conn, 1)
					go func() {
						c, _ := pool.OpenPool()
						got <- c
					}()
					select {
					case <-got:
						t.Errorf("%s: a pool of one connection has two users", what)
					case <-time.After(30 * time.Millisecond):
					}
					b.Close()
					select {
					case c := <-got:
						vfDo(t, what, c, 4)
					case <-time.After(5 * time.Second):
						t.Errorf("%s: the slot is lost", what)
						return
					}
				}
				pool.Close()
				if c, err := pool.OpenPool(); err == nil || !vsNilIface(c) {
					t.Errorf("%s: the closed pool opens a connection", what)
				}
				for _, p := range h.all() {
					if !p.killed && !p.gone() {
						t.Errorf("%s: a socket stays open after the pool is closed", what)
					}
				}
			})
			h.l.Close()
		}
	}
	// closing the pool with connections idle, in use, returned and lost
	for used := 0; used <= 3; used++ {
		for idle := 0; used+idle <= 3; idle++ {
			for name, end := range vfEndings() {
				n++
				what := fmt.Sprintf("pool closed with %d connections in use %s and %d idle", used, name, idle)
				h := vfServe(t, &vfHost{setup: func(_ int, p *vfPeer) { vfEcho(p) }})
				vfTimed(t, what, 30*time.Second, func() {
					pool, _ := NewClosableDriverPool("bolt://"+h.addr+"?timeout=2", 3)
					var cs []Conn
					for i := 0; i < used+idle; i++ {
						c, err := pool.OpenPool()
						if err != nil {
							t.Errorf("%s: %v", what, vsInner(err))
							return
						}
						vfDo(t, what, c, i)
						cs = append(cs, c)
					}
					for i := 0; i < idle; i++ {
						cs[used+i].Close()
					}
					for i := 0; i < used; i++ {
						for _, p := range h.all() {
							for _, r := range p.reqs() {
								if r.sig == vfRUN && r.f[0] == fmt.Sprint("T", i) && i == 0 {
									end(cs[i], p)
								}
							}
						}
					}
					pool.Close()
					for _, c := range cs {
						if _, err := c.ExecNeo("X", nil); err == nil {
							t.Errorf("%s: a connection works after the pool is closed", what)
						}
						c.Close()
					}
					for i := 0; i < 4; i++ {
						if c, err := pool.OpenPool(); err == nil || !vsNilIface(c) {
							t.Errorf("%s: the closed pool opens a connection", what)
						}
					}
					pool.Close()
					for _, p := range h.all() {
						if !p.killed && !p.gone() {
							t.Errorf("%s: a socket stays open", what)
						}
					}
				})
				h.l.Close()
				if t.Failed() {
					break
				}
			}
		}
	}
	// many users
	h := vfServe(t, &vfHost{setup: func(_ int, p *vfPeer) { vfEcho(p) }})
	vfTimed(t, "many users", 60*time.Second, func() {
		pool, _ := NewClosableDriverPool("bolt://"+h.addr+"?timeout=5", 3)
		var wg sync.WaitGroup
		var mu sync.Mutex
		users, most := 0, 0
		for g := 0; g < 12; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 25; i++ {
					c, err := pool.OpenPool()
					if err != nil {
						t.Errorf("many users: %v", vsInner(err))
						return
					}
					mu.Lock()
					if users++; users > most {
						most = users
					}
					mu.Unlock()
					vfDo(t, "many users", c, g*1000+i)
					if i%3 == 0 {
						c.Begin()
					}
					vfDo(t, "many users", c, g*1000+i+500)
					mu.Lock()
					users--
					mu.Unlock()
					c.Close()
				}
			}(g)
		}
		wg.Wait()
		if most > 3 {
			t.Errorf("a pool of 3 connections had %d users at a time", most)
		}
		if k := len(h.all()); k > 3 {
			t.Errorf("a pool of 3 connections opened %d sockets", k)
		}
		pool.Close()
		for _, p := range h.all() {
			if !p.gone() {
				t.Errorf("many users: a socket stays open")
			}
		}
	})
	h.l.Close()
	fmt.Println("VERIF-CASES", n+1)
}

// vfDead are the operations of a handle.
func vfDead(c Conn) map[string]func() error {
	sql := c.(interface {
		Query(string, []driver.Value) (driver.Rows, error)
		Exec(string, []driver.Value) (driver.Result, error)
		Prepare(string) (driver.Stmt, error)
	})
	return map[string]func() error{
		"PrepareNeo":      func() error { _, err := c.PrepareNeo("X"); return err },
		"PreparePipeline": func() error { _, err := c.PreparePipeline("X"); return err },
		"QueryNeo":        func() error { _, err := c.QueryNeo("X", nil); return err },
		"QueryNeoAll":     func() error { _, _, _, err := c.QueryNeoAll("X", nil); return err },
		"ExecNeo":         func() error { _, err := c.ExecNeo("X", nil); return err },
		"QueryPipeline":   func() error { _, err := c.QueryPipeline([]string{"X"}, nil); return err },
		"ExecPipeline":    func() error { _, err := c.ExecPipeline([]string{"X"}, nil); return err },
		"Begin":           func() error { _, err := c.Begin(); return err },
		"Query":           func() error { _, err := sql.Query("X", nil); return err },
		"Exec":            func() error { _, err := sql.Exec("X", nil); return err },
		"Prepare":         func() error { _, err := sql.Prepare("X"); return err },
	}
}

type vfCert struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	tls  tls.Certificate
	pem  string
	kpem string
}

var vfSerial int64

func vfMakeCert(t *testing.T, dir, name string, ca *vfCert) *vfCert {
	vfSerial++
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(vfSerial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		BasicConstraintsValid: true, IsCA: ca == nil, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	parent, pk := tm, key
	if ca != nil {
		parent, pk = ca.cert, ca.key
	}
	der, err := x509.CreateCertificate(crand.Reader, tm, parent, &key.PublicKey, pk)
	if err != nil {
		t.Fatal(err)
	}
	c, _ := x509.ParseCertificate(der)
	kb, _ := x509.MarshalECPrivateKey(key)
	out := &vfCert{cert: c, key: key, pem: filepath.Join(dir, name+".pem"), kpem: filepath.Join(dir, name+".key")}
	ioutil.WriteFile(out.pem, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	ioutil.WriteFile(out.kpem, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
	if out.tls, err = tls.LoadX509KeyPair(out.pem, out.kpem); err != nil {
		t.Fatal(err)
	}
	return out
}

func TestVerifC17(t *testing.T) {
	n := 0
	dir, err := ioutil.TempDir("", "verif17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	// the settings themselves
	type set struct {
		url, user, pass, host string
		timeout               time.Duration
		tls, noverify         bool
		cert, key, ca         string
		bad                   bool
	}
	def := 60 * time.Second
	sets := []set{
		{url: "bolt://h:7687", host: "h:7687", timeout: def},
		{url: "BOLT://h:7687", host: "h:7687", timeout: def},
		{url: "Bolt://u:p@h:1", user: "u", pass: "p", host: "h:1", timeout: def},
		{url: "bolt://u:@h:1", user: "u", host: "h:1", timeout: def},
		{url: "bolt://u%20v:p%25%40@h:1", user: "u v", pass: "p%@", host: "h:1", timeout: def},
		{url: "bolt://[::1]:7687", host: "[::1]:7687", timeout: def},
		{url: "bolt://h:1?timeout=5", host: "h:1", timeout: 5 * time.Second},
		{url: "bolt://h:1?timeout=3600", host: "h:1", timeout: time.Hour},
		{url: "bolt://h:1?timeout=", host: "h:1", timeout: def},
		{url: "bolt://h:1?other=x", host: "h:1", timeout: def},
		{url: "bolt://h:1?tls=true", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=T", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=1", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=TRUE&tls_no_verify=True", host: "h:1", timeout: def, tls: true, noverify: true},
		{url: "bolt://h:1?tls=true&tls_no_verify=1", host: "h:1", timeout: def, tls: true, noverify: true},
		{url: "bolt://h:1?tls=true&tls_no_verify=false", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=true&tls_no_verify=0", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=true&tls_no_verify=", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=true&tls_no_verify=no", host: "h:1", timeout: def, tls: true},
		{url: "bolt://h:1?tls=false", host: "h:1", timeout: def},
		{url: "bolt://h:1?tls=0", host: "h:1", timeout: def},
		{url: "bolt://h:1?tls=", host: "h:1", timeout: def},
		{url: "bolt://h:1?tls=no&tls_no_verify=0", host: "h:1", timeout: def},
		{url: "bolt://u:p@h:1?timeout=7&tls=true&tls_cert_file=/a%20b&tls_key_file=/k&tls_ca_cert_file=/c", user: "u", pass: "p", host: "h:1", timeout: 7 * time.Second, tls: true, cert: "/a b", key: "/k", ca: "/c"},
		{url: "http://h:1", bad: true}, {url: "bolts://h:1", bad: true}, {url: "://h", bad: true}, {url: "h:7687", bad: true}, {url: "", bad: true}, {url: "neo4j://h", bad: true},
		{url: "bolt://u@h:1", bad: true}, {url: "bolt://h:1?timeout=x", bad: true}, {url: "bolt://h:1?timeout=1.5", bad: true}, {url: "bolt://h:1?timeout=5s", bad: true},
		{url: "bolt://h:1?timeout=99999999999999999999", bad: true}, {url: "bolt://h:1?timeout=9223372037", bad: true}, {url: "bolt://h:1?timeout=-9223372037", bad: true}, {url: "bolt://h:1?timeout=9223372036854775807", bad: true}, {url: "bolt://h:1?timeout=9223372036", host: "h:1", timeout: 9223372036 * time.Second}, {url: "bolt://h:%zz", bad: true}, {url: "bolt://h:1?timeout=+x", bad: true},
	}
	for _, s := range sets {
		n++
		vfGuard(t, s.url, func() {
			c := createBoltConn(s.url)
			u, err := c.parseURL()
			if s.bad {
				if err == nil {
					t.Errorf("%q is accepted", s.url)
				}
				if _, err := c.createConn(); err == nil {
					t.Errorf("%q is dialed", s.url)
				}
				return
			}
			if err != nil {
				t.Errorf("%q: %v", s.url, vsInner(err))
				return
			}
			got := set{s.url, c.user, c.password, u.Host, c.timeout, c.useTLS, c.tlsNoVerify, c.certFile, c.keyFile, c.caCertFile, false}
			if got != s {
				t.Errorf("%q is read as %+v", s.url, got)
			}
			if c.useTLS && s.cert == "" && s.ca == "" {
				cfg, err := c.tlsConfig()
				if err != nil || cfg.InsecureSkipVerify != s.noverify || cfg.RootCAs != nil || len(cfg.Certificates) > 0 {
					t.Errorf("%q: TLS with %+v, %v", s.url, cfg, err)
				}
			}
		})
	}
	// what it means on the wire
	ca := vfMakeCert(t, dir, "ca", nil)
	ca2 := vfMakeCert(t, dir, "otherca", nil)
	server := vfMakeCert(t, dir, "server", ca)
	client := vfMakeCert(t, dir, "client", ca)
	client2 := vfMakeCert(t, dir, "client2", ca)
	pool := x509.NewCertPool()
	pool.AddCert(ca.cert)
	junk := filepath.Join(dir, "junk")
	ioutil.WriteFile(junk, []byte("nothing"), 0600)
	missing := filepath.Join(dir, "missing")
	type wire struct {
		q      string
		tls    int  // the server: 0 plain, 1 TLS, 2 TLS with client certificates
		ok     bool // connected
		client *vfCert
	}
	wires := []wire{
		{"", 0, true, nil}, {"tls=false", 0, true, nil}, {"tls=0&tls_no_verify=true", 0, true, nil}, {"tls_no_verify=true", 0, true, nil},
		{"tls_ca_cert_file=" + missing, 0, true, nil}, {"tls=no&tls_cert_file=" + client.pem, 0, true, nil},
		{"tls=true", 0, false, nil}, {"", 1, false, nil}, {"tls=false&tls_no_verify=1", 1, false, nil},
		{"tls=true", 1, false, nil}, {"tls=1", 1, false, nil}, {"tls=true&tls_no_verify=false", 1, false, nil}, {"tls=true&tls_no_verify=0", 1, false, nil},
		{"tls=true&tls_no_verify=true", 1, true, nil}, {"tls=t&tls_no_verify=1", 1, true, nil}, {"tls=1&tls_no_verify=T", 1, true, nil},
		{"tls=true&tls_ca_cert_file=" + ca.pem, 1, true, nil}, {"tls=true&tls_ca_cert_file=" + ca2.pem, 1, false, nil},
		{"tls=true&tls_ca_cert_file=" + missing, 1, false, nil}, {"tls=true&tls_no_verify=true&tls_ca_cert_file=" + missing, 1, false, nil}, {"tls=true&tls_ca_cert_file=" + junk, 1, false, nil},
		{"tls=true&tls_ca_cert_file=" + dir, 1, false, nil},
		{"tls=true&tls_ca_cert_file=" + ca2.pem + "&tls_no_verify=true", 1, true, nil},
		{"tls=true&tls_ca_cert_file=" + ca.pem, 2, false, nil},
		{"tls=true&tls_ca_cert_file=" + ca.pem + "&tls_cert_file=" + client.pem + "&tls_key_file=" + client.kpem, 2, true, client},
		{"tls=true&tls_no_verify=1&tls_cert_file=" + client2.pem + "&tls_key_file=" + client2.kpem, 2, true, client2},
		{"tls=true&tls_ca_cert_file=" + ca.pem + "&tls_cert_file=" + client.pem, 2, false, nil},
		{"tls=true&tls_ca_cert_file=" + ca.pem + "&tls_cert_file=" + client.pem, 1, false, nil},
		{"tls=true&tls_no_verify=true&tls_cert_file=" + client.pem, 1, false, nil},
		{"tls=true&tls_no_verify=true&tls_cert_file=" + missing + "&tls_key_file=" + client.kpem, 1, false, nil},
		{"tls=true&tls_no_verify=true&tls_cert_file=" + client.pem + "&tls_key_file=" + missing, 1, false, nil},
		{"tls=true&tls_no_verify=true&tls_cert_file=" + client.pem + "&tls_key_file=" + client2.kpem, 1, false, nil},
		{"tls=true&tls_no_verify=true&tls_cert_file=" + junk + "&tls_key_file=" + junk, 1, false, nil},
	}
	for _, w := range wires {
		n++
		h := &vfHost{}
		if w.tls > 0 {
			h.tls = &tls.Config{Certificates: []tls.Certificate{server.tls}, ClientAuth: tls.RequestClientCert}
			if w.tls == 2 {
				h.tls.ClientAuth, h.tls.ClientCAs = tls.RequireAndVerifyClientCert, pool
			}
		}
		vfServe(t, h)
		what := fmt.Sprintf("server %d, %q", w.tls, strings.Replace(w.q, dir, "", -1))
		vfTimed(t, what, 20*time.Second, func() {
			c, err := NewDriver().OpenNeo("bolt://" + h.addr + "?timeout=2&" + w.q)
			if (err == nil) != w.ok {
				t.Errorf("%s: connected %v (%v)", what, err == nil, vsInner(err))
			}
			if err != nil {
				return
			}
			if _, err := c.ExecNeo("Q", nil); err != nil {
				t.Errorf("%s: %v", what, vsInner(err))
			}
			h.last().locked(func() {
				st := h.last0().tls
				if w.tls == 0 {
					return
				}
				if st == nil {
					t.Errorf("%s: no TLS", what)
				} else if got := len(st.PeerCertificates); got > 0 != (w.client != nil) || w.client != nil && !st.PeerCertificates[0].Equal(w.client.cert) {
					t.Errorf("%s: %d client certificates", what, got)
				}
			})
			c.Close()
		})
		h.l.Close()
	}
	fmt.Println("VERIF-CASES", n)
}

func (h *vfHost) last0() *vfPeer { return h.peers[len(h.peers)-1] }

func TestVerifC19(t *testing.T) {
	vsSessions(t, "C19")
	n := 0
	within := func(what string, d time.Duration, f func() error) {
		n++
		vfTimed(t, what, d, func() {
			if err := f(); err == nil {
				t.Errorf("%s: no error", what)
			}
		})
	}
	// a server that accepts and never answers
	for _, q := range []string{"?timeout=1", "?timeout=1&tls=true", "?timeout=1&tls=true&tls_no_verify=true"} {
		h := vfServe(t, &vfHost{mute: true})
		within("opening"+q+" at a silent server", 4*time.Second, func() error {
			_, err := NewDriver().OpenNeo("bolt://" + h.addr + q)
			return err
		})
		h.l.Close()
	}
	// a server that does not accept: its backlog is full
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err == nil {
		defer syscall.Close(fd)
		syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
		syscall.Listen(fd, 0)
		sa, _ := syscall.Getsockname(fd)
		addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
		full := false
		for i := 0; i < 8 && !full; i++ {
			c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
			if full = err != nil; !full {
				defer c.Close()
			}
		}
		if full {
			for _, q := range []string{"?timeout=1", "?timeout=1&tls=true"} {
				within("dialing"+q+" a server that does not accept", 4*time.Second, func() error {
					_, err := NewDriver().OpenNeo("bolt://" + addr + q)
					return err
				})
			}
		}
	}
	// a timeout changed later
	h := vfServe(t, &vfHost{setup: func(_ int, p *vfPeer) {
		p.srv.replyFor = func(r vfReq) []byte {
			if r.sig != vfINIT {
				return []byte{}
			}
			return nil
		}
	}})
	within("a query after SetTimeout", 4*time.Second, func() error {
		c, err := NewDriver().OpenNeo("bolt://" + h.addr + "?timeout=100")
		if err != nil {
			return nil
		}
		c.SetTimeout(300 * time.Millisecond)
		_, err = c.ExecNeo("Q", nil)
		if e := vsInner(err); e != driver.ErrBadConn {
			t.Errorf("the query ends with %v", e)
		}
		return err
	})
	h.l.Close()
	// the timeout of the connection string is the one of the transfers
	for _, to := range []int{1, 7, 60, 3000} {
		n++
		f := newVfConn()
		f.vfServer = newVfServer(true)
		f.timeout = time.Duration(to) * time.Second
		c := createBoltConn(fmt.Sprintf("bolt://h:1?timeout=%d", to))
		if _, err := c.parseURL(); err != nil {
			t.Errorf("timeout %d: %v", to, vsInner(err))
		}
		c.conn = f
		err := c.handShake()
		if err == nil {
			_, err = c.sendInit()
		}
		if err != nil || len(f.deadlines) > 0 {
			t.Errorf("timeout %d: %v, %v", to, vsInner(err), f.deadlines)
		}
	}
	fmt.Println("VERIF-CASES", n)
}
