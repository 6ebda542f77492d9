# package bolt: opening a connection
using conn

def Q(s, k) = qget(queryof(urlquery(s)), k)
def truthy(s) = hasprefix(lower(s), "t") || s == "1"
def SECOND() = 1000000000
def numeric(s) = isnum(s) && -9223372036 <= num(s) && num(s) <= 9223372036
def urlgood(s) = urlok(s) && lower(urlscheme(s)) == "bolt" && imp(urlhasuser(s), urlpassset(s)) && imp(Q(s, "timeout") != "", numeric(Q(s, "timeout")))
def tlswanted(s) = truthy(Q(s, "tls"))
def SETTINGS_m(c) = _m(c.user, c.password, c.timeout, c.useTLS, c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify)

func bolt.createBoltConn(connStr) (c)
  props C17
  panics [C17]
  fresh c
  ensures [C17] "the defaults": c != nil && c.connStr == connStr && c.timeout == 60 * SECOND() && c.user == "" && c.password == "" && !c.useTLS && !c.tlsNoVerify && c.certFile == "" && c.keyFile == "" && c.caCertFile == ""
  ensures "a new connection": c.conn == nil && c.connErr == nil && !c.closed && c.transaction == nil && c.statement == nil && c.poolDriver == nil && c.driver == nil && c.chunkSize == 65535 && len(c.serverVersion) == 4 && new(ref(c.serverVersion)) && c.poolSlot == 0 && c.url == nil

func bolt.(boltConn).parseURL(c) (u, err)
  props C17
  panics [C17]
  let s := c.connStr
  requires "connection": c != nil
  modifies SETTINGS_m(c)
  fresh u
  split err == nil
  ensures [C17] "refused": iff(err == nil, urlgood(s))
  ensures [C17] "the host": imp(err == nil, u != nil && u.Host == urlhost(s))
  ensures [C17] "the credentials": imp(err == nil, ite(urlhasuser(s), c.user == urluser(s) && c.password == urlpass(s), c.user == old(c.user) && c.password == old(c.password)))
  ensures [C17,C19] "the timeout": imp(err == nil, ite(Q(s, "timeout") != "", c.timeout == num(Q(s, "timeout")) * SECOND(), c.timeout == old(c.timeout)))
  ensures [C17] "TLS": imp(err == nil, iff(c.useTLS, tlswanted(s)))
  ensures [C17] "TLS settings": imp(err == nil && tlswanted(s), c.certFile == Q(s, "tls_cert_file") && c.keyFile == Q(s, "tls_key_file") && c.caCertFile == Q(s, "tls_ca_cert_file") && iff(c.tlsNoVerify, truthy(Q(s, "tls_no_verify"))))

def certgood(c) = imp(c.caCertFile != "", readable(c.caCertFile)) && imp(c.certFile != "", c.keyFile != "" && keypairok(c.certFile, c.keyFile))

func bolt.(boltConn).tlsConfig(c) (cfg, err)
  props C17
  panics [C17]
  requires "connection": c != nil
  fresh cfg
  split err == nil
  ensures [C17] "refused": iff(err == nil, certgood(c))
  ensures [C17] "verification": imp(err == nil, cfg != nil && iff(cfg.InsecureSkipVerify, c.tlsNoVerify))
  ensures [C17] "authorities": imp(err == nil, ite(c.caCertFile != "", cfg.RootCAs != nil && pem(cfg.RootCAs) == filedata(c.caCertFile), cfg.RootCAs == nil))
  ensures [C17] "certificates": imp(err == nil, ite(c.certFile != "", len(cfg.Certificates) == 1 && ref(cfg.Certificates[0]) == keypair(c.certFile, c.keyFile), len(cfg.Certificates) == 0))

def certwanted(s) = imp(tlswanted(s) && Q(s, "tls_ca_cert_file") != "", readable(Q(s, "tls_ca_cert_file"))) && imp(tlswanted(s) && Q(s, "tls_cert_file") != "", Q(s, "tls_key_file") != "" && keypairok(Q(s, "tls_cert_file"), Q(s, "tls_key_file")))

func bolt.(boltConn).createConn(c) (v, err)
  props C17 C19
  panics [C17]
  let s := c.connStr
  requires "connection": c != nil
  modifies SETTINGS_m(c), c.url, opened(0)
  fresh v
  split err == nil
  ensures [C17] "refused": imp(!urlgood(s) || !certwanted(s), err != nil)
  ensures [C07] "a new socket": ite(err == nil, new(sock(v)), v == nil)
  ensures "nothing sent or received": imp(err == nil, nclose(sock(v)) == 0 && !tf(sock(v)) && wlog(sock(v)) == "" && rlog(sock(v)) == "" && se(sock(v)) == -1 && sp(sock(v)) == 1 && re(sock(v)) == -1 && rp(sock(v)) == 1 && ri(sock(v)) == 0 && ack(sock(v)) == 0 && nf(sock(v)) == 0 && !srvf(sock(v)) && nsent(sent(sock(v))) == 0)
  ensures [C07,C17] "one socket": opened(0) == old(opened(0)) + ite(err == nil, 1, 0)
  ensures [C17] "the address": imp(err == nil, is(v, "other") && dialnet(sock(v)) == "tcp" && dialaddr(sock(v)) == urlhost(s))
  ensures [C17,C19] "the timeout": imp(err == nil, dialtime(sock(v)) == c.timeout && ite(Q(s, "timeout") != "", c.timeout == num(Q(s, "timeout")) * SECOND(), c.timeout == old(c.timeout)))
  ensures [C17] "the credentials": imp(err == nil, ite(urlhasuser(s), c.user == urluser(s) && c.password == urlpass(s), c.user == old(c.user) && c.password == old(c.password)))
  ensures [C17] "TLS": imp(err == nil, iff(dialtls(sock(v)), tlswanted(s)))
  ensures [C17] "verification": imp(err == nil && tlswanted(s), iff(dialskip(sock(v)), truthy(Q(s, "tls_no_verify"))))
  ensures [C17] "authorities": imp(err == nil && tlswanted(s), ite(Q(s, "tls_ca_cert_file") != "", dialhasca(sock(v)) && dialca(sock(v)) == filedata(Q(s, "tls_ca_cert_file")), !dialhasca(sock(v))))
  ensures [C17] "certificates": imp(err == nil && tlswanted(s), ite(Q(s, "tls_cert_file") != "", dialncert(sock(v)) == 1 && dialcert(sock(v)) == keypair(Q(s, "tls_cert_file"), Q(s, "tls_key_file")), dialncert(sock(v)) == 0))

func bolt.(boltConn).SetTimeout(c, timeout) ()
  props C19
  panics [C19]
  requires "connection": c != nil
  modifies c.timeout
  ensures [C19] "in force from now on": c.timeout == timeout

func bolt.(boltConn).SetChunkSize(c, chunkSize) ()
  props C03
  panics [C03]
  requires "connection": c != nil
  modifies c.chunkSize
  ensures [C03] "set": c.chunkSize == chunkSize

# ---------- the handshake and INIT
func bolt.(boltConn).handShake(c) (err)
  props C07
  panics [C07]
  requires "connection": c != nil && net(c) && len(c.serverVersion) == 4
  modifies bytes(c.serverVersion), READ_m(c), WRITE_m(c)
  split err == nil
  ensures [C07] "sends the handshake": imp(err == nil, wlog(K(c)) == old(wlog(K(c))) + HELLO())
  ensures [C07] "a version was agreed": imp(err == nil, rlog(K(c)) == old(rlog(K(c))) + VERSION() && bytes(c.serverVersion) == VERSION())
  ensures [C07] "the transport is sound": imp(err == nil, old(c.connErr) == nil && tf(K(c)) == old(tf(K(c))))
  ensures "faults stay": imp(tf(K(c)) && !old(tf(K(c))), err != nil)

def AUTH(m, user, pass) = ite(user == "", len(m) == 1 && get(m, "scheme") == any("none"), len(m) == 3 && get(m, "scheme") == any("basic") && get(m, "principal") == any(user) && get(m, "credentials") == any(pass)) && has(m, "scheme")
def INITMSG(v, user, pass) = isInit(v) && as(v, "messages.InitMessage").clientName == "GolangNeo4jBolt/1.0" && AUTH(as(v, "messages.InitMessage").authToken, user, pass)
# one request has been sent: INIT
def asked(c) = nsent(sent(K(c))) == 1 && INITMSG(sentat(sent(K(c)), 0), c.user, c.password)
def NEW(c) = SE(c) == -1 && SP(c) == 1 && RE(c) == -1 && RP(c) == 1 && RI(c) == 0 && ack(K(c)) == 0 && nf(K(c)) == 0 && !srvf(K(c)) && nsent(sent(K(c))) == 0

func bolt.(boltConn).sendInit(c) (v, err)
  props C07
  panics [C07]
  requires "connection": W(c) && NEW(c) && c.statement == nil && c.transaction == nil && !c.closed
  requires [C07] "after the handshake": imp(c.connErr == nil, wlog(K(c)) == HELLO() && rlog(K(c)) == VERSION())
  modifies ALL_m(c)
  split err == nil
  ensures "unless the connection is closed": KEPT(c) || DEAD(c)
  ensures "kept": imp(c.connErr == nil || err == nil, KEPT(c))
  ensures [C07] "the transport is sound": imp(err == nil, old(c.connErr) == nil && !tf(K(c)))
  ensures [C07] "INIT with the credentials": imp(err == nil, asked(c))
  ensures [C07] "its answer": imp(err == nil, v == last(K(c)) && !isFail(v))
  ensures [C07,C08] "nothing is owed": imp(conf(K(c)) && err == nil, isSucc(v) && IDLE(c))

def nosocket(c) = opened(0) == old(opened(0)) && c.conn == nil || opened(0) == old(opened(0)) + 1 && net(c) && new(K(c)) && nclose(K(c)) == 1

func bolt.(boltConn).initialize(c) (err)
  props C07 C15 C17
  panics [C07]
  let s := c.connStr
  requires "connection": c != nil && !RECORDED(c) && wfpool(c) && len(c.serverVersion) == 4
  requires "not in use": c.connErr == nil && !c.closed && c.statement == nil && c.transaction == nil
  requires [C07,C15] "the old socket is closed": c.conn == nil || nclose(K(c)) > 0
  modifies SETTINGS_m(c), c.url, c.conn, c.connErr, c.closed, bytes(c.serverVersion), opened(0), clock(0), when(c.poolDriver != nil, _m(csend(POOL(c).pool), chlen(POOL(c).pool)))
  split err == nil
  ensures [C07,C17] "refused": imp(!urlgood(s) || !certwanted(s), err != nil)
  ensures [C07] "one socket": imp(err == nil, opened(0) == old(opened(0)) + 1 && net(c) && new(K(c)) && nclose(K(c)) == 0 && !c.closed && !tf(K(c)))
  ensures [C07] "INIT with the credentials": imp(err == nil, asked(c) && ite(urlhasuser(s), c.user == urluser(s) && c.password == urlpass(s), c.user == old(c.user) && c.password == old(c.password)))
  ensures [C07] "INIT was accepted": imp(err == nil, isSucc(last(K(c))))
  ensures [C07,C08] "nothing is owed": imp(err == nil && conf(K(c)), IDLE(c))
  ensures [C07] "no socket is left open": imp(err != nil, nosocket(c))
  ensures [C15] "gives its slot back on failure": imp(c.poolDriver != nil, csend(POOL(c).pool) == old(csend(POOL(c).pool)) + ite(err == nil, 0, 1))
  ensures [C17] "the address": imp(err == nil, dialnet(K(c)) == "tcp" && dialaddr(K(c)) == urlhost(s))
  ensures [C17,C19] "the timeout": imp(err == nil, dialtime(K(c)) == c.timeout && ite(Q(s, "timeout") != "", c.timeout == num(Q(s, "timeout")) * SECOND(), c.timeout == old(c.timeout)))
  ensures [C17] "TLS": imp(err == nil, iff(dialtls(K(c)), tlswanted(s)))

func bolt.newBoltConn(connStr, driver) (c, err)
  props C07 C17
  panics [C07]
  requires "no recording": driver == nil || driver.recorder == nil
  modifies opened(0), clock(0)
  fresh c
  split err == nil
  ensures [C07] "one or the other": iff(err == nil, c != nil)
  ensures [C07,C17] "refused": imp(!urlgood(connStr) || !certwanted(connStr), err != nil)
  ensures [C07] "one socket": imp(err == nil, opened(0) == old(opened(0)) + 1 && W(c) && !c.closed && nclose(K(c)) == 0 && c.statement == nil && c.transaction == nil && c.poolDriver == nil)
  ensures [C07] "INIT with the credentials": imp(err == nil, asked(c) && ite(urlhasuser(connStr), c.user == urluser(connStr) && c.password == urlpass(connStr), c.user == "" && c.password == ""))
  ensures [C07] "INIT was accepted": imp(err == nil, isSucc(last(K(c))))
  ensures [C07,C08] "nothing is owed": imp(err == nil && conf(K(c)), IDLE(c))
  ensures [C17] "the address": imp(err == nil, dialnet(K(c)) == "tcp" && dialaddr(K(c)) == urlhost(connStr))
  ensures [C17,C19] "the timeout": imp(err == nil, dialtime(K(c)) == c.timeout && c.timeout == ite(Q(connStr, "timeout") != "", num(Q(connStr, "timeout")), 60) * SECOND())
  ensures [C17] "TLS": imp(err == nil, iff(dialtls(K(c)), tlswanted(connStr)))
