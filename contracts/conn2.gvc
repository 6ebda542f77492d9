# package bolt: operations of connections, statements, rows, transactions
using conn

def EOF() = mk("other", 1001)
def untouched(c) = c.connErr == old(c.connErr) && sameproto(c) && clock(0) == old(clock(0)) && rarm(K(c)) == old(rarm(K(c))) && rset(K(c)) == old(rset(K(c))) && rused(K(c)) == old(rused(K(c))) && nread(K(c)) == old(nread(K(c))) && warm(K(c)) == old(warm(K(c))) && wset(K(c)) == old(wset(K(c))) && wused(K(c)) == old(wused(K(c))) && nwrite(K(c)) == old(nwrite(K(c))) && tf(K(c)) == old(tf(K(c))) && wlog(K(c)) == old(wlog(K(c))) && rlog(K(c)) == old(rlog(K(c))) && last(K(c)) == old(last(K(c)))
def POOL(c) = as(c.poolDriver, "*bolt.boltDriverPool")
def NET_m(c) = _m(READ_m(c), WRITE_m(c), PROTO_m(c))
# what closing the connection in the middle of an operation changes
def MID_m(c) = _m(STMT_m(c), nclose(K(c)))
def STMT_m(c) = _m(c.closed, c.statement, when(c.statement != nil, _m(c.statement.closed, c.statement.conn, c.statement.rows, when(c.statement.rows != nil, c.statement.rows.closed))), when(c.poolDriver != nil, _m(csend(POOL(c).pool), chlen(POOL(c).pool))))
def ALL_m(c) = _m(NET_m(c), MID_m(c))
def samestmt(s) = s.closed == old(s.closed) && s.conn == old(s.conn) && s.rows == old(s.rows) && imp(old(s.rows) != nil, old(s.rows).closed == old(s.rows.closed))
def KEPT(c) = c.closed == old(c.closed) && c.statement == old(c.statement) && nclose(K(c)) == old(nclose(K(c))) && imp(old(c.statement) != nil, samestmt(old(c.statement))) && imp(c.poolDriver != nil, csend(POOL(c).pool) == old(csend(POOL(c).pool)) && chlen(POOL(c).pool) == old(chlen(POOL(c).pool)))
def wasopen(c) = old(c.statement) != nil && !old(c.statement.closed)
def stmtgone(c) = ite(wasopen(c), c.statement == nil && imp(old(c.statement.rows) == nil, old(c.statement).rows == nil) && old(c.statement).closed && old(c.statement).conn == nil && imp(old(c.statement.rows) != nil, old(c.statement.rows).closed), c.statement == old(c.statement) && imp(old(c.statement) != nil, samestmt(old(c.statement))))
def DEAD(c) = c.closed && c.connErr != nil && nclose(K(c)) == old(nclose(K(c))) + 1 && stmtgone(c) && imp(c.poolDriver != nil, csend(POOL(c).pool) == old(csend(POOL(c).pool)) + 1)

# the objects of a connection belong together
def wfpool(c) = c.poolDriver == nil || is(c.poolDriver, "*bolt.boltDriverPool") && POOL(c) != nil && 0 <= c.poolSlot && c.poolSlot < len(POOL(c).connRefs) && ref(POOL(c)) == owner(POOL(c).pool) && c.driver == nil && c.connStr == POOL(c).connStr
def inrange(r, s) = len(s.queries) == 0 || 0 <= r.pipelineIndex && r.pipelineIndex < len(s.queries)
def wfrows(r, s) = r.closed || r.statement == s && inrange(r, s) && imp(r.finishedConsume, r.consumed)
def wfstmt(c, s) = s.closed || s.conn == c && imp(s.rows != nil, wfrows(s.rows, s))
def W(c) = c != nil && net(c) && wfpool(c) && len(c.serverVersion) == 4 && imp(c.statement != nil, wfstmt(c, c.statement)) && imp(c.transaction != nil, c.transaction.conn == c) && imp(tf(K(c)), c.connErr != nil)
# a connection that has not been connected
def NC(c) = c != nil && c.conn == nil && wfpool(c) && len(c.serverVersion) == 4 && c.statement == nil && c.transaction == nil
# and nothing is being closed
def S(c) = W(c) && imp(c.statement != nil, !c.statement.closed && imp(c.statement.rows != nil, !c.statement.rows.closed)) && imp(c.transaction != nil, !c.transaction.closed)

def READY(c) = !srvf(K(c)) && ack(K(c)) == 0
def IDLE(c) = READY(c) && SE(c) == RE(c) && SP(c) == 0 && RP(c) == 0
def left(r) = ite(len(r.statement.queries) == 0, 1, len(r.statement.queries) - r.pipelineIndex)
# what is owed for an open result
def OWED(c, r) = READY(c) && ite(r.consumed, ite(r.finishedConsume, IDLE(c), SP(c) == 0 && RP(c) == 1 && SE(c) == RE(c) + left(r)), SP(c) == 1 && RP(c) == 1 && SE(c) == RE(c) && RI(c) == 0 && len(r.statement.queries) == 0)
def LIVE(c) = conf(K(c)) && c.connErr == nil
def STATE(c) = imp(LIVE(c), ite(c.statement == nil || c.statement.rows == nil, IDLE(c), OWED(c, c.statement.rows)))

def fault(c, err) = imp(old(tf(K(c))), tf(K(c))) && imp(tf(K(c)) && !old(tf(K(c))), err != nil && BAD(cause(err)) && c.connErr != nil)
def broken(c) = imp(old(c.connErr) != nil, sameproto(c) && c.connErr != nil && tf(K(c)) == old(tf(K(c))) && wlog(K(c)) == old(wlog(K(c))) && sent(K(c)) == old(sent(K(c))))
def failure(c, err) = imp(conf(K(c)) && nf(K(c)) != old(nf(K(c))), err != nil && imp(c.connErr == nil, cause(err) == fl(K(c)) && isFail(fl(K(c)))))

func bolt.(boltConn).reset(c) (err)
  props C08 C09 C10
  panics [C08,C09,C10]
  requires "connection": W(c)
  requires [C09] "after a failed acknowledgement": imp(LIVE(c), srvf(K(c)) && ack(K(c)) == 0 && wellkept(c) && owed(c) == 0)
  modifies ALL_m(c)
  split err == nil
  invariant "waiting": imp(conf(K(c)) && old(c.connErr) == nil, srvf(K(c)) && ack(K(c)) == 1 && owed(c) == 0 && wellkept(c) && nofail(c))
  invariant "no fault": imp(tf(K(c)), old(tf(K(c)))) && imp(old(tf(K(c))), tf(K(c)))
  invariant "not broken before": old(c.connErr) == nil
  invariant "sends nothing more": sent(K(c)) == old(sent(K(c)))
  ensures "unless the connection is closed": KEPT(c) || DEAD(c)
  ensures "kept": imp(c.connErr == nil || err == nil, KEPT(c))
  ensures [C10] "a fault is reported": fault(c, err)
  ensures [C10] "broken stays broken": broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err)))
  ensures [C13] "an error is not the end": err != EOF()
  ensures [C09] "recovered": imp(conf(K(c)) && err == nil, IDLE(c))
  ensures [C09] "or broken": imp(conf(K(c)) && err != nil, c.connErr != nil)
  ensures "no new failure": imp(conf(K(c)), nf(K(c)) == old(nf(K(c))) && fl(K(c)) == old(fl(K(c))))
  ensures [C20] "sends no request": sent(K(c)) == old(sent(K(c)))

func bolt.(boltConn).ackFailure(c, failure) (err)
  props C08 C09 C10
  panics [C08,C09,C10]
  requires "connection": W(c)
  requires [C09] "after a failure": imp(LIVE(c), srvf(K(c)) && ack(K(c)) == 0 && wellkept(c) && owed(c) >= 0)
  modifies ALL_m(c)
  split err == nil
  invariant "waiting": imp(conf(K(c)) && old(c.connErr) == nil, srvf(K(c)) && ack(K(c)) == 1 && sametail(c) && owed(c) >= 0 && wellkept(c) && nofail(c))
  invariant "no fault": imp(tf(K(c)), old(tf(K(c)))) && imp(old(tf(K(c))), tf(K(c)))
  invariant "not broken before": old(c.connErr) == nil
  invariant "sends nothing more": sent(K(c)) == old(sent(K(c)))
  ensures "unless the connection is closed": KEPT(c) || DEAD(c)
  ensures "kept": imp(c.connErr == nil || err == nil, KEPT(c))
  ensures [C10] "a fault is reported": fault(c, err)
  ensures [C10] "broken stays broken": broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err)))
  ensures [C13] "an error is not the end": err != EOF()
  ensures [C09] "recovered": imp(conf(K(c)) && err == nil, IDLE(c))
  ensures [C09] "or broken": imp(conf(K(c)) && err != nil, c.connErr != nil)
  ensures "no new failure": imp(conf(K(c)), nf(K(c)) == old(nf(K(c))) && fl(K(c)) == old(fl(K(c))))
  ensures [C20] "sends no request": sent(K(c)) == old(sent(K(c)))

func bolt.(boltConn).consume(c) (v, err)
  props C08 C09 C10
  panics [C08,C09,C10]
  requires "connection": W(c)
  requires [C08] "a response is owed": imp(LIVE(c), READY(c) && owed(c) > 0 && wellkept(c))
  modifies ALL_m(c)
  split err == nil
  ensures "unless the connection is closed": KEPT(c) || DEAD(c)
  ensures "kept": imp(c.connErr == nil || err == nil, KEPT(c))
  ensures [C10] "a fault is reported": fault(c, err)
  ensures [C10] "broken stays broken": broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err)))
  ensures [C09] "a failure is reported": failure(c, err)
  ensures [C09] "a failure is no answer": imp(err == nil, !isFail(v))
  ensures [C07] "the message received": imp(err == nil, v == last(K(c)))
  ensures [C13] "an error is not the end": err != EOF()
  ensures [C09] "recovered from a failure": imp(LIVE(c) && err != nil, nf(K(c)) == old(nf(K(c))) + 1 && IDLE(c))
  ensures [C08] "takes the response to the request": imp(conf(K(c)) && err == nil, nofail(c) && sametail(c) && ack(K(c)) == old(ack(K(c))) && answered(c, v))
  ensures "kinds of answers": imp(conf(K(c)), isSucc(summ(K(c), old(RE(c)), old(RP(c)))) && isRec(rec(K(c), old(RE(c)), old(RI(c)))) && as(rec(K(c), old(RE(c)), old(RI(c))), "messages.RecordMessage").Fields != nil && nrec(K(c), old(RE(c))) >= 0)
  ensures [C20] "sends no request": sent(K(c)) == old(sent(K(c)))

def RECORDED(c) = c.driver != nil && c.driver.recorder != nil
# idle connections wait in the pool
func chan.bolt.boltConn(ch, v) ()
  assumed
  props C15 C16 C08
  requires [C15] "a connection": v != nil
  requires [C15,C16] "a version buffer": len(v.serverVersion) == 4
  requires [C15,C16] "not broken": v.connErr == nil && !v.closed && imp(v.conn != nil, net(v) && !tf(K(v)))
  requires [C11,C12,C15,C16] "nothing is open": v.statement == nil && v.transaction == nil
  requires [C15] "in its slot": v.poolDriver != nil && wfpool(v) && POOL(v).pool == ch && ref(POOL(v)) == owner(ch)
  requires [C08,C15] "no responses are owed": imp(v.conn != nil && conf(K(v)), IDLE(v))
  model "its socket and buffer are its own": new(ref(v.serverVersion)) && imp(v.conn != nil, new(K(v)))
  model "a count": nclose(K(v)) >= 0

func bolt.(boltDriverPool).reclaim(d, conn) (err)
  props C08 C11 C12 C15 C16
  panics [C15]
  requires "connection": d != nil && conn != nil && conn.poolDriver != nil && wfpool(conn) && POOL(conn) == d && len(conn.serverVersion) == 4 && imp(conn.conn != nil, net(conn) && imp(tf(K(conn)), conn.connErr != nil))
  requires [C11,C12] "nothing is open": imp(conn.connErr == nil && !conn.closed, conn.statement == nil && conn.transaction == nil)
  requires [C08] "no responses are owed": imp(conn.connErr == nil && !conn.closed && conn.conn != nil && conf(K(conn)), IDLE(conn))
  modifies csend(d.pool), chlen(d.pool), when(conn.conn != nil, nclose(K(conn)))
  ensures [C15] "gives the slot back": err == nil && csend(d.pool) == old(csend(d.pool)) + 1
  ensures [C15] "closes the socket of a broken connection": imp(conn.conn != nil, nclose(K(conn)) == old(nclose(K(conn))) + ite(conn.connErr != nil || conn.closed, 1, 0))

# what happens to a statement and the connection while its rows or itself are closed
def gone(c, s) = s.closed && s.conn == nil && c.statement == nil
def slots(c, n) = imp(c.poolDriver != nil, csend(POOL(c).pool) == old(csend(POOL(c).pool)) + n)
def alive(c) = c.closed == old(c.closed) && nclose(K(c)) == old(nclose(K(c))) && slots(c, 0)
def killed(c) = c.closed && c.connErr != nil && nclose(K(c)) == old(nclose(K(c))) + 1 && slots(c, 1)
def RUN(q, p) = mk("messages.RunMessage", q, p)
def PULL() = mk("messages.PullAllMessage")
def DISCARD() = mk("messages.DiscardAllMessage")
def maybeDiscard(c, r, err) = ite(old(r.consumed), sent(K(c)) == old(sent(K(c))), sent(K(c)) == snoc(old(sent(K(c))), DISCARD()) || err != nil && sent(K(c)) == old(sent(K(c))))

func bolt.(boltRows).Close(r) (err)
  props C08 C09 C10 C11 C20
  panics [C08,C09,C10,C11]
  let s := r.statement
  let c := r.statement.conn
  requires "rows": r != nil
  requires "open rows belong to an open connection": imp(!r.closed, s != nil && s.rows == r && c != nil && !c.closed && c.statement == s && W(c) && inrange(r, s))
  requires [C08] "responses are owed": imp(!r.closed && LIVE(c), OWED(c, r) && wellkept(c))
  modifies when(!r.closed, ALL_m(c))
  split err == nil
  ensures [C11] "closed": r.closed
  ensures [C11] "closing again has no effect": imp(old(r.closed), err == nil)
  ensures [C11] "the statement is free": imp(!old(r.closed), s.rows == nil)
  ensures [C11] "its statement is closed": imp(!old(r.closed) && !old(s.closed) && r.closeStatement, gone(c, s))
  ensures [C11] "a statement being closed": imp(!old(r.closed) && old(s.closed), c.statement == s && s.closed && s.conn == c)
  ensures [C11] "a prepared statement": imp(!old(r.closed) && !old(s.closed) && !r.closeStatement, gone(c, s) && killed(c) || !s.closed && s.conn == c && c.statement == s && alive(c))
  ensures [C11,C15] "the connection": imp(!old(r.closed), alive(c) || killed(c))
  ensures "only if broken": imp(!old(r.closed) && (c.connErr == nil || err == nil), alive(c))
  ensures "nothing left to take": imp(!old(r.closed) && old(r.consumed) && old(r.finishedConsume), err == nil && untouched(c) && alive(c))
  ensures [C08] "no response is owed": imp(!old(r.closed) && LIVE(c), IDLE(c))
  ensures [C10] "a fault is reported": imp(!old(r.closed), fault(c, err))
  ensures [C10] "broken stays broken": imp(!old(r.closed), broken(c) && imp(old(c.connErr) != nil && !r.finishedConsume, err != nil && BAD(cause(err))))
  ensures [C09] "a failure is reported": imp(!old(r.closed), failure(c, err))
  ensures [C20] "only discards": imp(!old(r.closed), maybeDiscard(c, r, err))
  ensures "errors": imp(!old(r.closed) && err != nil && conf(K(c)), c.connErr != nil || nf(K(c)) != old(nf(K(c))))

func bolt.(boltStmt).Close(s) (err)
  props C08 C09 C10 C11 C20
  panics [C08,C09,C10,C11]
  let c := s.conn
  let r0 := s.rows
  requires "statement": s != nil
  requires "of a connection": imp(!s.closed, c != nil && W(c) && (c.statement == s && !c.closed || c.statement == nil && s.rows == nil))
  requires [C08] "responses are owed": imp(!s.closed && LIVE(c) && s.rows != nil, wellkept(c) && ite(s.rows == nil, IDLE(c), !s.rows.closed && OWED(c, s.rows)))
  modifies when(!s.closed, _m(s.closed, s.conn, s.rows, c.statement, when(s.rows != nil && !s.rows.closed, ALL_m(c))))
  split err == nil
  ensures [C11] "closed": s.closed
  ensures [C11] "closing again has no effect": imp(old(s.closed), err == nil)
  ensures [C11] "the connection is free": imp(!old(s.closed), s.conn == nil && c.statement == nil)
  ensures "rows": imp(!old(s.closed), s.rows == nil || s.rows == r0 && old(r0.closed))
  ensures [C11] "closes its rows": imp(!old(s.closed) && old(s.rows) != nil, old(s.rows).closed)
  ensures [C11,C15] "the connection": imp(!old(s.closed), alive(c) || killed(c))
  ensures "only if broken": imp(!old(s.closed) && (c.connErr == nil || err == nil), alive(c))
  ensures [C08] "no response is owed": imp(!old(s.closed) && LIVE(c) && old(r0 != nil && !r0.closed), IDLE(c))
  ensures [C10] "a fault is reported": imp(!old(s.closed), fault(c, err))
  ensures [C10] "broken stays broken": imp(!old(s.closed), broken(c))
  ensures [C09] "a failure is reported": imp(!old(s.closed), failure(c, err))
  ensures [C20] "only discards": imp(!old(s.closed), ite(old(s.rows) == nil || old(r0.closed), sent(K(c)) == old(sent(K(c))), maybeDiscard(c, r0, err)))
  ensures "nothing to do": imp(old(s.rows) == nil, err == nil)
  ensures "errors": imp(!old(s.closed) && err != nil && conf(K(c)), c.connErr != nil || nf(K(c)) != old(nf(K(c))))


# what was sent: at most a DISCARD_ALL for unread rows before the request
def unread(c) = c.statement != nil && !c.statement.closed && c.statement.rows != nil && !c.statement.rows.closed && !c.statement.rows.consumed
def ran(c, q, p) = sent(K(c)) == snoc(snoc(ite(old(unread(c)), snoc(old(sent(K(c))), DISCARD()), old(sent(K(c)))), RUN(q, p)), PULL())
def running(t) = !t.closed && !t.conn.closed

func bolt.(boltTx).Commit(t) (err)
  props C08 C09 C10 C11 C12 C20
  panics [C08,C09,C10,C12]
  let c := t.conn
  requires "transaction": t != nil && c != nil
  requires "of a connection": imp(running(t), c.transaction == t && W(c))
  requires "in order": imp(running(t) && c.connErr == nil, S(c) && STATE(c) && imp(LIVE(c), wellkept(c)))
  modifies when(running(t), _m(ALL_m(c), when(c.connErr == nil, _m(c.transaction, t.closed))))
  split err == nil
  ensures [C12] "only once": imp(old(t.closed) || old(c.closed), err != nil)
  ensures [C12] "done": imp(err == nil, t.closed && c.transaction == nil && c.statement == nil && alive(c))
  ensures [C12,C20] "sends the statement": imp(err == nil, ran(c, "COMMIT", 0))
  ensures [C12] "or still open": imp(err != nil && old(running(t)), !t.closed && c.transaction == t)
  ensures [C11,C12] "its statement is closed": imp(old(running(t)), stmtgone(c))
  ensures [C15] "the connection": imp(old(running(t)), alive(c) || killed(c))
  ensures "only if broken": imp(old(running(t)) && c.connErr == nil, alive(c))
  ensures [C08] "no response is owed": imp(old(running(t)) && LIVE(c), IDLE(c))
  ensures [C10] "a fault is reported": imp(old(running(t)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(running(t)), broken(c) && imp(old(c.connErr) != nil, err != nil))
  ensures [C09,C12] "a failure is reported": imp(old(running(t)), failure(c, err))

func bolt.(boltTx).Rollback(t) (err)
  props C08 C09 C10 C11 C12 C20
  panics [C08,C09,C10,C12]
  let c := t.conn
  requires "transaction": t != nil && c != nil
  requires "of a connection": imp(running(t), c.transaction == t && W(c))
  requires "in order": imp(running(t) && c.connErr == nil, S(c) && STATE(c) && imp(LIVE(c), wellkept(c)))
  modifies when(running(t), _m(ALL_m(c), when(c.connErr == nil, _m(c.transaction, t.closed))))
  split err == nil
  ensures [C12] "only once": imp(old(t.closed) || old(c.closed), err != nil)
  ensures [C12] "done": imp(err == nil, t.closed && c.transaction == nil && c.statement == nil && alive(c))
  ensures [C12,C20] "sends the statement": imp(err == nil, ran(c, "ROLLBACK", 0))
  ensures [C12] "or still open": imp(err != nil && old(running(t)), !t.closed && c.transaction == t)
  ensures [C11,C12] "its statement is closed": imp(old(running(t)), stmtgone(c))
  ensures [C15] "the connection": imp(old(running(t)), alive(c) || killed(c))
  ensures "only if broken": imp(old(running(t)) && c.connErr == nil, alive(c))
  ensures [C08] "no response is owed": imp(old(running(t)) && LIVE(c), IDLE(c))
  ensures [C10] "a fault is reported": imp(old(running(t)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(running(t)), broken(c) && imp(old(c.connErr) != nil, err != nil))
  ensures [C09,C12] "a failure is reported": imp(old(running(t)), failure(c, err))

func bolt.(boltConn).Close(c) (err)
  props C08 C09 C10 C11 C12 C15 C16
  panics [C08,C09,C10]
  requires "connection": c != nil && imp(!c.closed, W(c) || NC(c))
  requires "in order": imp(!c.closed && c.connErr == nil && c.conn != nil, S(c) && STATE(c))
  modifies c.connErr, when(c.conn != nil, _m(NET_m(c), nclose(K(c)))), STMT_m(c), when(c.connErr == nil && !c.closed && c.transaction != nil, _m(c.transaction, c.transaction.closed))
  split err == nil
  ensures [C11,C16] "closed": imp(c.conn != nil || c.poolDriver != nil, c.closed)
  ensures "nothing to close": imp(c.conn == nil && c.poolDriver == nil, err == nil)
  ensures [C16] "closing again has no effect": imp(old(c.closed), err == nil && KEPT(c) && c.connErr == old(c.connErr) && c.transaction == old(c.transaction) && broken(c))
  ensures [C10] "a fault is reported": fault(c, err)
  ensures [C10] "broken stays broken": broken(c) && imp(old(c.connErr) != nil, c.connErr != nil)
  ensures [C11] "the statement is closed too": imp(!old(c.closed), stmtgone(c))
  ensures "a broken connection has no say": imp(old(c.connErr) != nil, sameproto(c) && c.transaction == old(c.transaction) && imp(old(c.transaction) != nil, old(c.transaction).closed == old(c.transaction.closed)))
  ensures [C15,C16] "closes the socket unless it goes back to the pool": imp(!old(c.closed) && c.conn != nil, nclose(K(c)) == old(nclose(K(c))) + ite(c.poolDriver == nil || c.connErr != nil, 1, 0))
  ensures [C12] "rolls back an open transaction": imp(!old(c.closed) && old(c.connErr) == nil && old(c.transaction) != nil && err == nil, old(c.transaction).closed && c.transaction == nil && ran(c, "ROLLBACK", 0))
  ensures [C20] "sends nothing else": imp(old(c.transaction) == nil, sent(K(c)) == old(sent(K(c))) || sent(K(c)) == snoc(old(sent(K(c))), DISCARD()))
  ensures [C09] "a failure is reported": failure(c, err)
  ensures [C15] "gives its slot back once": imp(c.poolDriver != nil, csend(POOL(c).pool) == old(csend(POOL(c).pool)) + ite(old(c.closed), 0, 1))

# errors of anything that takes responses
func bolt.(boltConn).consumeAll(c) (responses, success, err)
  props C08 C09 C10 C13
  panics [C08,C09,C10]
  requires "connection": W(c)
  requires [C08] "a response is owed": imp(LIVE(c), READY(c) && owed(c) > 0 && wellkept(c))
  modifies ALL_m(c)
  split err == nil
  invariant "kept": KEPT(c)
  invariant "position": imp(conf(K(c)) && old(c.connErr) == nil, sametail(c) && nofail(c) && ack(K(c)) == old(ack(K(c))) && RE(c) == old(RE(c)) && RP(c) == old(RP(c)) && imp(iter > 0, RP(c) == 1) && RI(c) == old(RI(c)) + iter)
  invariant "records in order": imp(conf(K(c)) && old(c.connErr) == nil, len(L_responses) == iter && forall(j, 0, iter, L_responses[j] == rec(K(c), old(RE(c)), old(RI(c)) + j)))
  invariant "no more than there are": imp(conf(K(c)) && old(c.connErr) == nil && iter > 0, RI(c) <= nrec(K(c), old(RE(c))))
  invariant "no fault": imp(tf(K(c)), old(tf(K(c)))) && imp(old(tf(K(c))), tf(K(c)))
  invariant "not broken before": imp(old(c.connErr) != nil, iter == 0 && c.connErr != nil && sameproto(c))
  invariant "sends nothing": sent(K(c)) == old(sent(K(c)))
  invariant "writes nothing": imp(old(c.connErr) != nil, wlog(K(c)) == old(wlog(K(c))))
  ensures "unless the connection is closed": KEPT(c) || DEAD(c)
  ensures "kept": imp(c.connErr == nil || err == nil, KEPT(c))
  ensures [C10] "a fault is reported": fault(c, err)
  ensures [C10] "broken stays broken": broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err)))
  ensures [C09] "a failure is reported": failure(c, err)
  ensures [C09] "recovered from a failure": imp(LIVE(c) && err != nil, nf(K(c)) == old(nf(K(c))) + 1 && IDLE(c))
  ensures [C08] "takes the responses to one request": imp(conf(K(c)) && err == nil, nofail(c) && sametail(c) && ack(K(c)) == old(ack(K(c))) && advanced(c))
  ensures [C08,C14] "the summary": imp(conf(K(c)) && err == nil, success == summ(K(c), old(RE(c)), old(RP(c))))
  ensures [C13] "all records in order": imp(conf(K(c)) && err == nil && old(RP(c)) == 1 && old(RI(c)) <= nrec(K(c), old(RE(c))), len(responses) == nrec(K(c), old(RE(c))) - old(RI(c)) && forall(j, 0, len(responses), responses[j] == rec(K(c), old(RE(c)), old(RI(c)) + j)))
  ensures "a summary": imp(err == nil, isSucc(success))
  ensures [C20] "sends no request": sent(K(c)) == old(sent(K(c)))

func bolt.(boltConn).consumeAllMultiple(c, mult) (responses, successes, err)
  props C08 C09 C10
  panics [C08,C09,C10]
  requires "connection": W(c)
  requires "count": mult >= 0
  requires [C08] "as many responses are owed": imp(LIVE(c), READY(c) && owed(c) >= mult && wellkept(c))
  modifies ALL_m(c)
  split err == nil
  invariant "kept": KEPT(c)
  invariant "position": imp(conf(K(c)) && old(c.connErr) == nil, sametail(c) && nofail(c) && ack(K(c)) == old(ack(K(c))) && owed(c) == old(owed(c)) - iter && wellkept(c))
  invariant "no fault": imp(tf(K(c)), old(tf(K(c)))) && imp(old(tf(K(c))), tf(K(c)))
  invariant "not broken before": imp(old(c.connErr) != nil, iter == 0 && c.connErr != nil)
  invariant "sends nothing": sent(K(c)) == old(sent(K(c)))
  invariant "writes nothing": imp(old(c.connErr) != nil, wlog(K(c)) == old(wlog(K(c))))
  invariant "untouched": imp(iter == 0, sameproto(c))
  ensures "unless the connection is closed": KEPT(c) || DEAD(c)
  ensures "kept": imp(c.connErr == nil || err == nil, KEPT(c))
  ensures [C10] "a fault is reported": fault(c, err)
  ensures [C10] "broken stays broken": broken(c) && imp(old(c.connErr) != nil && mult > 0, err != nil && BAD(cause(err)))
  ensures [C09] "a failure is reported": failure(c, err)
  ensures [C09] "recovered from a failure": imp(LIVE(c) && err != nil, nf(K(c)) == old(nf(K(c))) + 1 && IDLE(c))
  ensures [C08] "takes the responses": imp(conf(K(c)) && err == nil && old(c.connErr) == nil, nofail(c) && sametail(c) && ack(K(c)) == old(ack(K(c))) && owed(c) == old(owed(c)) - mult && wellkept(c))
  ensures "none": imp(mult == 0, err == nil)
  ensures [C20] "sends no request": sent(K(c)) == old(sent(K(c)))
