# planted bugs of opening, the pool, settings, results and deadlines
import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
from seeds2h import demo, fake, ERR, MSG
NET='''
type peer struct {
	mu   sync.Mutex
	srv  *vfServer
	gone chan bool // closed when the client has closed the socket
	c    net.Conn
}

func (p *peer) closed() bool {
	select {
	case <-p.gone:
		return true
	case <-time.After(3 * time.Second):
		return false
	}
}

type host struct {
	mu    sync.Mutex
	addr  string
	peers []*peer
}

func (h *host) at(i int) *peer {
	for k := 0; k < 300; k++ {
		h.mu.Lock()
		if i < len(h.peers) {
			p := h.peers[i]
			h.mu.Unlock()
			return p
		}
		h.mu.Unlock()
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}

func newHost(t *testing.T, prep func(i int, s *vfServer)) *host {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	h := &host{addr: l.Addr().String()}
	go func() {
		for i := 0; ; i++ {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p := &peer{srv: newVfServer(true), gone: make(chan bool), c: c}
			if prep != nil {
				prep(i, p.srv)
			}
			h.mu.Lock()
			h.peers = append(h.peers, p)
			h.mu.Unlock()
			go func() {
				defer close(p.gone)
				b := make([]byte, 4096)
				for {
					n, err := c.Read(b)
					if err != nil {
						return
					}
					p.mu.Lock()
					p.srv.feed(b[:n])
					out := p.srv.out
					p.srv.out = nil
					p.mu.Unlock()
					c.Write(out)
				}
			}()
		}
	}()
	return h
}

func within(t *testing.T, what string, f func()) {
	d := make(chan bool)
	go func() { defer close(d); f() }()
	select {
	case <-d:
	case <-time.After(10 * time.Second):
		t.Fatalf("%s does not return", what)
	}
}

'''
def seed(ID,prop,edits,body,imps,needs,breaks,net=True):
    if net:
        body=NET+body.lstrip('\n')
        imps=['"sync"']+list(imps)
    mkseed(ID,prop,'',edits,demo(body,*imps),needs,breaks)

seed('c07-unexpected-init-reply','C07',[('conn.go','''		c.connErr = errors.New("Unrecognized response from the server: %#v", resp)
		c.Close()
		return driver.ErrBadConn
	}
}

// Read reads''','''		c.connErr = errors.New("Unrecognized response from the server: %#v", resp)
		return driver.ErrBadConn
	}
}

// Read reads''')],'''
func TestDemo(t *testing.T) {
	h := newHost(t, func(i int, s *vfServer) {
		s.initAns = vfChunks(vfPack(vfS{0x7E, nil}), 0) // IGNORED
	})
	if c, err := NewDriver().OpenNeo("bolt://" + h.addr + "?timeout=5"); err == nil {
		t.Fatal("opened", c)
	}
	if p := h.at(0); p == nil || !p.closed() {
		t.Error("the socket of the failed attempt is still open")
	}
}
''',[],'A server that answers INIT with something other than SUCCESS or FAILURE.','initialize forgets to close the socket in the branch of unexpected INIT replies.')

seed('c07-empty-password','C07',[('structures/messages/init.go','''	if user == "" {
		authToken''','''	if user == "" || password == "" {
		authToken''')],'''
func TestDemo(t *testing.T) {
	h := newHost(t, nil)
	c, err := NewDriver().OpenNeo("bolt://neo4j:@" + h.addr + "?timeout=5")
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
	p := h.at(0)
	p.closed()
	p.mu.Lock()
	defer p.mu.Unlock()
	want := map[string]interface{}{"scheme": "basic", "principal": "neo4j", "credentials": ""}
	if len(p.srv.reqs) == 0 || !reflect.DeepEqual(p.srv.reqs[0].f[1], want) {
		t.Errorf("INIT carries %v", p.srv.reqs)
	}
}
''',['"reflect"'],'A connection string with a user and an empty password.','INIT carries scheme none instead of the basic credentials of the connection string.')

seed('c15-dial-failure','C15',[('conn.go','''	} else {
		c.conn, err = c.createConn()
		if err != nil {
			// Return the connection back into the pool
			if e := c.Close(); e != nil {
				log.Errorf("An error occurred closing connection: %s", e)
			}
			return err
		}
	}
''','''	} else {
		c.conn, err = c.createConn()
		if err != nil {
			if c.conn != nil {
				// Return the connection back into the pool
				if e := c.Close(); e != nil {
					log.Errorf("An error occurred closing connection: %s", e)
				}
			}
			return err
		}
	}
''')],'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close() // nobody listens: dialing fails
	p, err := NewDriverPool("bolt://"+addr+"?timeout=2", 1)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		within(t, "opening from the pool", func() {
			if _, err := p.OpenPool(); err == nil {
				t.Error("opened")
			}
		})
	}
}
''',[],'Dialing fails as often as the pool has connections, then another OpenPool.','A connection whose dial failed never goes back to the pool: it runs out of slots and OpenPool blocks for ever.')

seed('c15-kept-transaction','C15',[('driver.go','''	var newConn *boltConn
	var err error
''','''	var newConn *boltConn
'''),('driver.go','''		newConn, err = newPooledBoltConn(d.connStr, d)
		if err != nil {
			return err
		}
		newConn.poolSlot = conn.poolSlot
''','''		// keep the settings of the connection, but not its socket
		newConn = &boltConn{}
		*newConn = *conn
		newConn.conn, newConn.connErr, newConn.closed = nil, nil, false
''')],'''
func TestDemo(t *testing.T) {
	h := newHost(t, func(i int, s *vfServer) {
		for _, q := range []string{"BEGIN", "COMMIT", "ROLLBACK", "Q"} {
			s.on(q, &vfAns{})
		}
	})
	p, err := NewDriverPool("bolt://"+h.addr+"?timeout=2", 1)
	if err != nil {
		t.Fatal(err)
	}
	a, err := p.OpenPool()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := a.Begin(); err != nil {
		t.Fatal(err)
	}
	h.at(0).c.Close() // the server goes away in the transaction
	a.Close()
	within(t, "opening again", func() {
		b, err := p.OpenPool()
		if err != nil {
			t.Fatal(err)
		}
		tx, err := b.Begin()
		if err != nil {
			t.Fatalf("a new connection is not usable: %v", err)
		}
		if err := tx.Commit(); err != nil {
			t.Error(err)
		}
	})
}
''',[],'A transport fault while a transaction is open on a pooled connection, then the slot is opened again.','The replacement for a broken pooled connection is a copy that still has its transaction: the next user cannot begin one.')

seed('c16-first-handle-only','C16',[('driver.go','''		if connectionNilOrClosed(conn) {
''','''		reopen := connectionNilOrClosed(conn)
		if reopen {
'''),('driver.go','''		d.connRefs[conn.poolSlot] = conn
		return conn, nil''','''		if reopen {
			d.connRefs[conn.poolSlot] = conn
		}
		return conn, nil''')],'''
func TestDemo(t *testing.T) {
	h := newHost(t, func(i int, s *vfServer) { s.on("Q", &vfAns{}) })
	p, err := NewClosableDriverPool("bolt://"+h.addr+"?timeout=2", 1)
	if err != nil {
		t.Fatal(err)
	}
	a, err := p.OpenPool()
	if err != nil {
		t.Fatal(err)
	}
	a.Close()
	b, err := p.OpenPool() // the same socket, another handle
	if err != nil {
		t.Fatal(err)
	}
	_ = b
	p.Close()
	if !h.at(0).closed() {
		t.Error("a socket is open after the pool was closed")
	}
}
''',[],'A connection is returned and opened again without reconnecting, and is in use when the pool is closed.','Only the first handle of a socket is registered: pool.Close leaves a reused connection that is in use open.')

seed('c16-handle-after-close','C16',[('conn.go','''	if c.statement != nil {
		return nil, errors.New("An open statement already exists")
	}
	if c.closed {
		return nil, errors.New("Connection already closed")
	}
	c.statement = newPipelineStmt(queries, c)
''','''	if c.statement != nil {
		return nil, errors.New("An open statement already exists")
	}
	if c.closed && c.poolDriver == nil {
		return nil, errors.New("Connection already closed")
	}
	c.statement = newPipelineStmt(queries, c)
''')],'''
func TestDemo(t *testing.T) {
	h := newHost(t, func(i int, s *vfServer) { s.on("Q", &vfAns{}) })
	p, err := NewClosableDriverPool("bolt://"+h.addr+"?timeout=2", 1)
	if err != nil {
		t.Fatal(err)
	}
	a, err := p.OpenPool()
	if err != nil {
		t.Fatal(err)
	}
	a.Close()
	if st, err := a.PreparePipeline("Q"); err == nil {
		st.ExecPipeline(nil)
		t.Error("a connection that went back to the pool accepts a pipeline")
	}
	q := h.at(0)
	q.mu.Lock()
	defer q.mu.Unlock()
	if len(q.srv.reqs) > 1 {
		t.Errorf("requests after the close: %v", q.srv.reqs)
	}
}
''',[],'PreparePipeline on the handle of a pooled connection after it was closed.','A dead pooled handle can still send a pipeline on a socket that may belong to another user.')

seed('c17-no-verify-false','C17',[('conn.go','''		c.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
''','''		c.tlsNoVerify = noVerify != "" && noVerify != "0"
''')],'''
func TestDemo(t *testing.T) {
	for v, want := range map[string]bool{"true": true, "1": true, "false": false, "0": false, "": false} {
		c := createBoltConn("bolt://localhost:7687?tls=true&tls_no_verify=" + v)
		if _, err := c.parseURL(); err != nil {
			t.Fatal(err)
		}
		cfg, err := c.tlsConfig()
		if err != nil {
			t.Fatal(err)
		}
		if cfg.InsecureSkipVerify != want {
			t.Errorf("tls_no_verify=%s: verification is skipped: %v", v, cfg.InsecureSkipVerify)
		}
	}
}
''',[],'A connection string with tls_no_verify=false.','Certificate verification is switched off by tls_no_verify=false.',False)

seed('c17-stale-authorities','C17',[('conn.go','''	if c.certFile != "" {
		if c.keyFile == "" {''','''	if c.certFile != "" && config.RootCAs == nil {
		if c.keyFile == "" {''')],'''
func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	cf, kf := filepath.Join(d, "c.pem"), filepath.Join(d, "k.pem")
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(crand.Reader, tm, tm, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	kb, _ := x509.MarshalECPrivateKey(key)
	ioutil.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	ioutil.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
	c := createBoltConn("bolt://localhost?tls=true&tls_cert_file=" + cf + "&tls_key_file=" + kf + "&tls_ca_cert_file=" + cf)
	if _, err := c.parseURL(); err != nil {
		t.Fatal(err)
	}
	cfg, err := c.tlsConfig()
	if err != nil {
		t.Fatal(err)
	}
	if len(cfg.Certificates) != 1 {
		t.Errorf("%d client certificates", len(cfg.Certificates))
	}
}
''',['"io/ioutil"','"path/filepath"','"crypto/ecdsa"','"crypto/elliptic"','crand "crypto/rand"','"crypto/x509"','"encoding/pem"','"math/big"'],'A connection string with both an authority file and a client certificate.','The client certificate is not presented when an authority file is given as well.',False)

seed('c18-columns-of-stats','C18',[('result.go','''	if _, ok := r.metadata["stats"]; !ok {
		return 0, nil
	}
''','''	if stats := r.metadata["stats"]; stats == nil {
		return 0, nil
	}
''')],'''
func TestDemo(t *testing.T) {
	n, err := newResult(map[string]interface{}{"stats": nil}).RowsAffected()
	if err == nil {
		t.Errorf("statistics of null give %d without an error", n)
	}
}
''',[],'A summary whose stats entry is null.','Malformed statistics are reported as zero rows without an error.',False)

seed('c18-columns-prefix','C18',[('rows.go','''			log.Errorf("Unrecognized fields from success message: %#v", fieldsInt)
			return []string{}
		}
	}
''','''			log.Errorf("Unrecognized fields from success message: %#v", fieldsInt)
			return fieldsStr[:i]
		}
	}
''')],'''
func TestDemo(t *testing.T) {
	r := &boltRows{metadata: map[string]interface{}{"fields": []interface{}{"a", int64(1), "b"}}}
	if c := r.Columns(); len(c) != 0 {
		t.Errorf("columns %q of malformed fields", c)
	}
}
''',[],'A RUN summary with a field name that is not a string behind one that is.','Columns gives part of the fields of a malformed summary instead of none.',False)

seed('c19-cached-deadline','C19',[('conn.go','''	chunkSize     uint16
''','''	chunkSize     uint16
	readBy        time.Time // the read deadline
'''),('conn.go','''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
		c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
		return 0, driver.ErrBadConn
	}
''','''	// Setting a deadline is costly: leave one that is still good
	if by := time.Now().Add(c.timeout / 2); by.After(c.readBy) {
		c.readBy = time.Now().Add(c.timeout)
		if err := c.conn.SetReadDeadline(c.readBy); err != nil {
			c.connErr = errors.Wrap(err, "An error occurred setting read deadline")
			return 0, driver.ErrBadConn
		}
	}
''')],'''
func TestDemo(t *testing.T) {
	c, f := pair()
	f.on("Q", &vfAns{})
	if _, err := c.ExecNeo("Q", nil); err != nil {
		t.Fatal(err)
	}
	// the deadlines the connection arms, with the timeout in force
	c.SetTimeout(time.Hour)
	if _, err := c.ExecNeo("Q", nil); err != nil {
		t.Fatal(err)
	}
	d := &deadlines{vfConn: f}
	c.conn = d
	c.SetTimeout(time.Minute)
	if _, err := c.ExecNeo("Q", nil); err != nil {
		t.Fatal(err)
	}
	if d.last.IsZero() || d.last.After(time.Now().Add(2*time.Minute)) {
		t.Errorf("the read deadline in force is %v, the timeout one minute", d.last)
	}
}

type deadlines struct {
	*vfConn
	last time.Time
}

func (d *deadlines) SetReadDeadline(t time.Time) error {
	d.last = t
	return d.vfConn.SetReadDeadline(t)
}
''',[],'SetTimeout lowers the timeout of a connection that has been read from, and the server then stops answering.','A deadline armed under an earlier, longer timeout stays in force.',False)
