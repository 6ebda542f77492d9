# the proof of a property of sessions rests on the clauses of these others
relies C08 on C09 C11
relies C09 on C08 C11
relies C12 on C08 C09 C11
relies C13 on C08 C09 C11
relies C14 on C08 C09 C11 C13
relies C20 on C11

# package bolt: connection level

def BAD(x) = x == mk("other", 1002)
def CE(e) = e.connErr != nil
def K(c) = sock(c.conn)
# the driver's test recorder is not used
def READ_m(c) = _m(c.connErr, rarm(K(c)), rset(K(c)), rused(K(c)), nread(K(c)), tf(K(c)), clock(0), rlog(K(c)))
def WRITE_m(c) = _m(c.connErr, warm(K(c)), wset(K(c)), wused(K(c)), nwrite(K(c)), tf(K(c)), clock(0), wlog(K(c)))
def net(c) = is(c.conn, "other")

func bolt.(boltConn).Read(c, b) (n, err)
  props C10 C19
  panics [C10]
  requires "connection": c != nil && net(c)
  modifies window(b), READ_m(c)
  split err == nil
  ensures [C10] "a fault is reported": imp(tf(K(c)) && !old(tf(K(c))), err != nil && n < len(b))
  ensures "faults stay": imp(old(tf(K(c))), tf(K(c)))
  ensures [C10] "errors are the bad connection": imp(err != nil, BAD(err) && c.connErr != nil)
  ensures "count": 0 <= n && n <= len(b)
  ensures [C07] "received": rlog(K(c)) == old(rlog(K(c))) + sub(bytes(b), 0, n)
  ensures [C10] "a broken connection is not used": imp(old(c.connErr) != nil, err != nil && n == 0 && nread(K(c)) == old(nread(K(c))) && tf(K(c)) == old(tf(K(c))) && c.connErr == old(c.connErr))
  ensures [C10] "success": imp(err == nil, c.connErr == nil && nread(K(c)) == old(nread(K(c))) + 1)
  ensures [C19] "armed": nread(K(c)) == old(nread(K(c))) || nread(K(c)) == old(nread(K(c))) + 1 && rused(K(c)) == tadd(clock(0), old(c.timeout)) && clock(0) > old(clock(0))

func bolt.(boltConn).Write(c, b) (n, err)
  props C10 C19
  panics [C10]
  requires "connection": c != nil && net(c)
  modifies WRITE_m(c)
  split err == nil
  ensures [C10] "a fault is reported": imp(tf(K(c)) && !old(tf(K(c))), err != nil)
  ensures "faults stay": imp(old(tf(K(c))), tf(K(c)))
  ensures [C10] "errors are the bad connection": imp(err != nil, BAD(err) && c.connErr != nil)
  ensures [C10] "a broken connection is not used": imp(old(c.connErr) != nil, err != nil && nwrite(K(c)) == old(nwrite(K(c))) && wlog(K(c)) == old(wlog(K(c))) && tf(K(c)) == old(tf(K(c))) && c.connErr == old(c.connErr))
  ensures [C10,C20] "success": imp(err == nil, n == len(b) && c.connErr == nil && nwrite(K(c)) == old(nwrite(K(c))) + 1)
  ensures [C10,C20] "written": imp(err == nil, wlog(K(c)) == old(wlog(K(c))) + bytes(b))
  ensures [C19] "armed": nwrite(K(c)) == old(nwrite(K(c))) || nwrite(K(c)) == old(nwrite(K(c))) + 1 && wused(K(c)) == tadd(clock(0), old(c.timeout)) && clock(0) > old(clock(0))

# output for the log only
func bolt.sprintByteHex(b) (s)
  props C10
  panics [C10]

# ---------- messages on the connection
using conn

# io.ReadFull, from the source of the library
func std.stdReadFull#conn(r, buf) (n, err)
  props C10
  panics [C10]
  let c := as(r, "*bolt.boltConn")
  requires "reader": is(r, "*bolt.boltConn") && c != nil && net(c)
  modifies bytes(buf), READ_m(c)
  split err == nil
  invariant "faults": L_n >= 0 && L_n <= len(buf) && imp(tf(K(c)) && !old(tf(K(c))), L_err != nil && L_n < len(buf)) && imp(old(tf(K(c))), tf(K(c)))
  invariant "errors": imp(L_err != nil, BAD(L_err) && c.connErr != nil)
  invariant "broken": imp(old(c.connErr) != nil, c.connErr != nil && L_n == 0 && tf(K(c)) == old(tf(K(c))))
  invariant "received": rlog(K(c)) == old(rlog(K(c))) + sub(bytes(buf), 0, L_n)
  ensures "all or an error": 0 <= n && iff(err == nil, n == len(buf))
  ensures [C07] "received": imp(err == nil, rlog(K(c)) == old(rlog(K(c))) + bytes(buf))
  ensures [C10] "a fault is reported": imp(tf(K(c)) && !old(tf(K(c))), err != nil)
  ensures "faults stay": imp(old(tf(K(c))), tf(K(c)))
  ensures [C10] "errors are the bad connection": imp(err != nil, BAD(err) && c.connErr != nil)
  ensures [C10] "a broken connection is not used": imp(old(c.connErr) != nil && len(buf) > 0, err != nil)
  ensures [C10] "a broken connection stays broken": imp(old(c.connErr) != nil, c.connErr != nil && tf(K(c)) == old(tf(K(c))))

def READER(d) = as(d.r, "*bolt.boltConn")
def onconn(d) = is(d.r, "*bolt.boltConn") && READER(d) != nil && net(READER(d))

func encoding.(Decoder).read#conn(d) (data, err)
  props C10
  panics [C10]
  let c := READER(d)
  requires "reader": onconn(d)
  modifies READ_m(c)
  fresh data
  split err == nil
  invariant "faults": imp(tf(K(c)), old(tf(K(c)))) && imp(old(tf(K(c))), tf(K(c)))
  invariant "broken": imp(old(c.connErr) != nil, c.connErr != nil && iter == 0)
  ensures "data": imp(err == nil, data != nil)
  ensures [C10] "a fault is reported": imp(tf(K(c)) && !old(tf(K(c))), err != nil)
  ensures "faults stay": imp(old(tf(K(c))), tf(K(c)))
  ensures [C10] "errors are the bad connection": imp(err != nil, BAD(cause(err)) && c.connErr != nil)
  ensures [C10] "a broken connection is not used": imp(old(c.connErr) != nil, err != nil && c.connErr != nil && tf(K(c)) == old(tf(K(c))))

# the protocol state of a socket: exchange e is a RUN and the PULL_ALL or
# DISCARD_ALL after it.  se exchanges have been sent, and sp=1 if the RUN of the
# next one has; re have been answered, and rp=1 if the RUN of the next one has,
# followed by ri records.  srvf: the server ignores requests after a failure.
def owed(c) = 2*(se(K(c)) - re(K(c))) + sp(K(c)) - rp(K(c))
def SE(c) = se(K(c))
def SP(c) = sp(K(c))
def RE(c) = re(K(c))
def RP(c) = rp(K(c))
def RI(c) = ri(K(c))
def PROTO_m(c) = _m(se(K(c)), sp(K(c)), re(K(c)), rp(K(c)), ri(K(c)), ack(K(c)), nf(K(c)), srvf(K(c)), fl(K(c)), sent(K(c)), last(K(c)))
def sameproto(c) = sametail(c) && samehead(c) && ack(K(c)) == old(ack(K(c))) && sent(K(c)) == old(sent(K(c)))
def sametail(c) = SE(c) == old(SE(c)) && SP(c) == old(SP(c))
def samehead(c) = RE(c) == old(RE(c)) && RP(c) == old(RP(c)) && RI(c) == old(RI(c)) && nf(K(c)) == old(nf(K(c))) && srvf(K(c)) == old(srvf(K(c))) && fl(K(c)) == old(fl(K(c)))
def isRun(v) = is(v, "messages.RunMessage")
def isPull(v) = is(v, "messages.PullAllMessage")
def isDiscard(v) = is(v, "messages.DiscardAllMessage")
def isAck(v) = is(v, "messages.AckFailureMessage")
def isReset(v) = is(v, "messages.ResetMessage")
def isInit(v) = is(v, "messages.InitMessage")
def isSucc(v) = is(v, "messages.SuccessMessage")
def isFail(v) = is(v, "messages.FailureMessage")
def isRec(v) = is(v, "messages.RecordMessage")
def isIgn(v) = is(v, "messages.IgnoredMessage")
def wellkept(c) = 0 <= SP(c) && SP(c) <= 1 && 0 <= RP(c) && RP(c) <= 1
def maysend(c, v) = imp(isRun(v), SP(c) == 0 && ack(K(c)) == 0 && !srvf(K(c))) && imp(isPull(v) || isDiscard(v), SP(c) == 1 && ack(K(c)) == 0 && !srvf(K(c))) && imp(isAck(v) || isReset(v), srvf(K(c)) && ack(K(c)) == 0) && imp(isInit(v), SE(c) == -1 && SP(c) == 1)
def HELLO() = "\x60\x60\xb0\x17\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"
def VERSION() = "\x00\x00\x00\x01"
def txquery(q) = q == "BEGIN" || q == "COMMIT" || q == "ROLLBACK"

func encoding.(Encoder).Encode#conn(e, v) (err)
  props C10
  panics [C10]
  let c := as(e.w, "*bolt.boltConn")
  requires "encoder": e.buf != nil && str(e.buf) == "" && e.chunkSize > 0 && is(e.w, "*bolt.boltConn") && c != nil && net(c)
  requires [C09,C20] "the protocol allows the request": imp(conf(K(c)) && c.connErr == nil && enc(v), maysend(c, v))
  requires [C07] "INIT comes after the handshake": imp(c.connErr == nil && isInit(v), wlog(K(c)) == HELLO() && rlog(K(c)) == VERSION())
  modifies str(e.buf), WRITE_m(c), PROTO_m(c)
  split err == nil
  ensures [C10] "a fault is reported": imp(tf(K(c)) && !old(tf(K(c))), err != nil)
  ensures "faults stay": imp(old(tf(K(c))), tf(K(c)))
  ensures [C10] "errors are the bad connection": imp(err != nil && enc(v), BAD(cause(err)) && c.connErr != nil)
  ensures [C10] "a broken connection is not used": imp(old(c.connErr) != nil, err != nil && c.connErr == old(c.connErr) && tf(K(c)) == old(tf(K(c))) && wlog(K(c)) == old(wlog(K(c))))
  ensures [C20] "a refused request leaves no trace": imp(!enc(v), err != nil && c.connErr == old(c.connErr) && tf(K(c)) == old(tf(K(c))) && wlog(K(c)) == old(wlog(K(c))))
  ensures [C20] "sends one message": imp(err == nil, c.connErr == nil && enc(v) && len(wlog(K(c))) >= len(old(wlog(K(c)))) && sub(wlog(K(c)), 0, len(old(wlog(K(c))))) == old(wlog(K(c))) && message(sub(wlog(K(c)), len(old(wlog(K(c)))), len(wlog(K(c)))), pack(v)))
  model "what is not sent changes nothing": imp(err != nil, sameproto(c))
  model "requests are queued": samehead(c) && imp(err == nil && isRun(v), SE(c) == old(SE(c)) && SP(c) == 1 && ack(K(c)) == old(ack(K(c)))) && imp(err == nil && (isPull(v) || isDiscard(v)), SE(c) == old(SE(c)) + 1 && SP(c) == 0 && ack(K(c)) == old(ack(K(c)))) && imp(err == nil && (isAck(v) || isReset(v)), sametail(c) && ack(K(c)) == 1) && imp(err == nil && isInit(v), SE(c) == 0 && SP(c) == 0 && ack(K(c)) == old(ack(K(c))))
  model "requests are remembered": imp(err == nil, sent(K(c)) == ite(isAck(v) || isReset(v), old(sent(K(c))), snoc(old(sent(K(c))), v)))
  model "no records for a discarded result": imp(conf(K(c)) && err == nil && (isDiscard(v) || isInit(v)), nrec(K(c), old(SE(c))) == 0)
  model "no records for transaction statements": imp(conf(K(c)) && err == nil && isRun(v) && txquery(as(v, "messages.RunMessage").statement), nrec(K(c), old(SE(c))) == 0)

# the answer v to the request at the head
def advanced(c) = ite(old(RP(c)) == 0, RP(c) == 1 && RE(c) == old(RE(c)), RP(c) == 0 && RE(c) == old(RE(c)) + 1) && RI(c) == 0
def nofail(c) = nf(K(c)) == old(nf(K(c))) && fl(K(c)) == old(fl(K(c))) && srvf(K(c)) == old(srvf(K(c)))
def answered(c, v) = ite(old(RP(c)) == 0, v == summ(K(c), old(RE(c)), 0) && advanced(c), ite(old(RI(c)) < nrec(K(c), old(RE(c))), v == rec(K(c), old(RE(c)), old(RI(c))) && RE(c) == old(RE(c)) && RP(c) == 1 && RI(c) == old(RI(c)) + 1, v == summ(K(c), old(RE(c)), 1) && advanced(c)))
def failed1(c, v) = isFail(v) && srvf(K(c)) && fl(K(c)) == v && nf(K(c)) == old(nf(K(c))) + 1 && advanced(c)
def rounded(c) = ite(old(SP(c)) == 1, SE(c) == old(SE(c)) + 1 && SP(c) == 0 && RE(c) == old(RE(c)) + 1 && RP(c) == 0 && RI(c) == 0, sametail(c) && RE(c) == old(RE(c)) && RP(c) == old(RP(c)) && RI(c) == old(RI(c)))

func encoding.(Decoder).Decode#conn(d) (v, err)
  props C10
  panics [C10]
  use any
  let c := READER(d)
  requires "reader": onconn(d)
  requires [C08] "a response is owed": imp(conf(K(c)) && c.connErr == nil, owed(c) > 0 || ack(K(c)) > 0)
  modifies READ_m(c), PROTO_m(c)
  split err == nil
  ensures [C10] "a fault is reported": imp(tf(K(c)) && !old(tf(K(c))), err != nil && BAD(cause(err)) && c.connErr != nil)
  ensures "faults stay": imp(old(tf(K(c))), tf(K(c)))
  ensures [C10] "a broken connection is not used": imp(old(c.connErr) != nil, err != nil && BAD(cause(err)) && c.connErr != nil && tf(K(c)) == old(tf(K(c))))
  model "a conforming server sends well formed messages": imp(conf(K(c)) && err != nil, c.connErr != nil && BAD(cause(err)))
  model "the last message": imp(err == nil, last(K(c)) == v)
  model "reading sends nothing": sent(K(c)) == old(sent(K(c)))
  model "unread responses stay": imp(err != nil, sameproto(c))
  model "requests are answered in order": imp(conf(K(c)) && err == nil && old(owed(c)) > 0, sametail(c) && ack(K(c)) == old(ack(K(c))) && ite(old(srvf(K(c))), isIgn(v) && advanced(c) && nofail(c), failed1(c, v) || answered(c, v) && nofail(c)))
  model "acknowledgement": imp(conf(K(c)) && err == nil && old(owed(c)) <= 0, nf(K(c)) == old(nf(K(c))) && fl(K(c)) == old(fl(K(c))) && ack(K(c)) == 0 && (isSucc(v) && !srvf(K(c)) && rounded(c) || isFail(v) && srvf(K(c)) && sametail(c) && RE(c) == old(RE(c)) && RP(c) == old(RP(c)) && RI(c) == old(RI(c))))
  model "kinds of answers": imp(conf(K(c)), isSucc(summ(K(c), old(RE(c)), old(RP(c)))) && isRec(rec(K(c), old(RE(c)), old(RI(c)))) && as(rec(K(c), old(RE(c)), old(RI(c))), "messages.RecordMessage").Fields != nil && nrec(K(c), old(RE(c))) >= 0)
