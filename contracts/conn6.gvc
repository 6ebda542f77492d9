# package bolt: the pool
using conn

func bolt.newPooledBoltConn(connStr, driver) (c, err)
  props C15 C17
  panics [C15]
  fresh c
  ensures [C15] "not connected": err == nil && c != nil && c.connStr == connStr && c.poolDriver == driver && c.conn == nil && c.connErr == nil && !c.closed && c.statement == nil && c.transaction == nil && c.driver == nil && c.chunkSize == 65535 && len(c.serverVersion) == 4 && c.poolSlot == 0
  ensures "a buffer of its own": new(ref(c.serverVersion))

def wfd(d) = d != nil && owner(d.pool) == ref(d)

func bolt.createDriverPool(connStr, max) (d, err)
  props C15 C16
  panics [C15]
  requires "a size": max >= 0
  fresh d
  invariant "filled": 0 <= L_i && L_i <= max && chlen(L_d.pool) == L_i && chcap(L_d.pool) == max && owner(L_d.pool) == ref(L_d) && len(L_d.connRefs) == max && !L_d.closed && L_d.connStr == connStr
  ensures [C15] "as many slots as asked for": err == nil && wfd(d) && chlen(d.pool) == max && chcap(d.pool) == max && len(d.connRefs) == max
  ensures [C16] "open": !d.closed && d.connStr == connStr

func bolt.connectionNilOrClosed(conn) (dead)
  props C15
  panics [C15]
  requires "connection": conn != nil && imp(conn.conn != nil, net(conn))
  modifies when(conn.conn != nil, _m(rarm(K(conn)), rset(K(conn)), rused(K(conn)), nread(K(conn)), tf(K(conn)), rlog(K(conn)))), clock(0)
  ensures [C15] "not connected": imp(conn.conn == nil, dead)
  ensures [C15] "no fault": imp(!dead, imp(conn.conn != nil, tf(K(conn)) == old(tf(K(conn)))))

func bolt.(boltDriverPool).OpenPool(d) (v, err)
  props C07 C15 C16
  panics [C15]
  requires "pool": wfd(d)
  modifies crecv(d.pool), csend(d.pool), chlen(d.pool), elems(d.connRefs), opened(0), clock(0)
  fresh v
  split err == nil
  ensures [C16] "a closed pool opens nothing": imp(d.closed, err != nil && crecv(d.pool) == old(crecv(d.pool)) && opened(0) == old(opened(0)))
  ensures [C15,C16] "one connection of the pool": imp(err == nil, is(v, "*bolt.boltConn") && CONN(v) != nil && POOL(CONN(v)) == d && W(CONN(v)) && crecv(d.pool) == old(crecv(d.pool)) + 1)
  ensures [C15] "not broken": imp(err == nil, !CONN(v).closed && !tf(K(CONN(v))) && CONN(v).statement == nil && CONN(v).transaction == nil)
  ensures [C15] "nothing is owed": imp(err == nil && conf(K(CONN(v))), IDLE(CONN(v)))
  ensures [C15] "gives the slot back when opening fails": csend(d.pool) - old(csend(d.pool)) == ite(err == nil, 0, crecv(d.pool) - old(crecv(d.pool)))
  ensures [C07,C16] "registered": imp(err == nil, d.connRefs[CONN(v).poolSlot] == CONN(v))
  ensures [C07] "or nothing": imp(err != nil, v == nil)
def CONN(v) = as(v, "*bolt.boltConn")

func bolt.(boltDriver).OpenNeo(d, connStr) (v, err)
  props C07 C17
  panics [C07]
  requires "no recording": d == nil || d.recorder == nil
  modifies opened(0), clock(0)
  fresh v
  split err == nil
  ensures [C07] "a connection": imp(err == nil, is(v, "*bolt.boltConn") && W(CONN(v)) && !CONN(v).closed && isSucc(last(K(CONN(v)))) && nclose(K(CONN(v))) == 0 && opened(0) == old(opened(0)) + 1)
  ensures [C07,C17] "refused": imp(!urlgood(connStr) || !certwanted(connStr), err != nil)

func bolt.(boltDriver).Open(d, connStr) (v, err)
  props C07 C17
  panics [C07]
  requires "no recording": d == nil || d.recorder == nil
  modifies opened(0), clock(0)
  fresh v
  split err == nil
  ensures [C07] "a connection": imp(err == nil, is(v, "*bolt.boltConn") && W(CONN(v)) && !CONN(v).closed && isSucc(last(K(CONN(v)))) && nclose(K(CONN(v))) == 0 && opened(0) == old(opened(0)) + 1)
  ensures [C07,C17] "refused": imp(!urlgood(connStr) || !certwanted(connStr), err != nil)

# closing the pool: what closing one connection does, whatever its state (the
# connections of a pool are taken to be well formed and separate here)
func bolt.(boltConn).Close#pool(c) (err)
  assumed
  props C16
  requires "connection": c != nil
  modifies c.closed, c.connErr, nclose(K(c))
  ensures "closed": imp(c.conn != nil || c.poolDriver != nil, c.closed) && imp(old(c.closed), c.closed)
  ensures "closes the socket unless it goes back to the pool": imp(!old(c.closed) && c.conn != nil, nclose(K(c)) == old(nclose(K(c))) + ite(c.poolDriver == nil || c.connErr != nil, 1, 0))
  ensures "or nothing": imp(old(c.closed) || c.conn == nil, nclose(K(c)) == old(nclose(K(c))))

def REF(d, j) = d.connRefs[j]
def done(d, j) = REF(d, j) == nil || REF(d, j).conn == nil || REF(d, j).closed && imp(!old(REF(d, j).closed), nclose(K(REF(d, j))) > old(nclose(K(REF(d, j)))))

func bolt.(boltDriverPool).Close(d) (err)
  props C16
  panics [C16]
  use pool
  ghost j Int
  requires "pool": wfd(d) && 0 <= j && j < len(d.connRefs)
  havoc F:bolt.boltConn.closed, F:bolt.boltConn.connErr, F:bolt.boltConn.poolDriver, G:nclose
  modifies d.closed, crecv(d.pool), chlen(d.pool)
  invariant "closed": d.closed && d.connRefs[j] == old(d.connRefs[j])
  invariant "those closed": REF(d, j) == old(REF(d, j)) && (done(d, j) || iter <= j && REF(d, j).closed == old(REF(d, j).closed)) && nclose(K(REF(d, j))) >= old(nclose(K(REF(d, j)))) && REF(d, j).conn == old(REF(d, j).conn)
  invariant "all closed": done(d, j) && nclose(K(REF(d, j))) >= old(nclose(K(REF(d, j))))
  ensures [C16] "closed": d.closed
  ensures [C16] "every connection in use is closed": done(d, j)
  ensures [C16] "nothing is left in the pool": chlen(d.pool) <= 0

func bolt.NewDriverPool(connStr, max) (v, err)
  props C15
  panics [C15]
  requires "a size": max >= 0
  fresh v
  ensures [C15] "as many slots as asked for": err == nil && is(v, "*bolt.boltDriverPool") && wfd(DPOOL(v)) && chlen(DPOOL(v).pool) == max && chcap(DPOOL(v).pool) == max && len(DPOOL(v).connRefs) == max && !DPOOL(v).closed && DPOOL(v).connStr == connStr

func bolt.NewClosableDriverPool(connStr, max) (v, err)
  props C15
  panics [C15]
  requires "a size": max >= 0
  fresh v
  ensures [C15] "as many slots as asked for": err == nil && is(v, "*bolt.boltDriverPool") && wfd(DPOOL(v)) && chlen(DPOOL(v).pool) == max && chcap(DPOOL(v).pool) == max && len(DPOOL(v).connRefs) == max && !DPOOL(v).closed && DPOOL(v).connStr == connStr
def DPOOL(v) = as(v, "*bolt.boltDriverPool")

# a socket is closed before it is forgotten (the number of calls of Close on a
# socket is never negative)
func field.bolt.boltConn.conn(c) ()
  assumed
  props C07 C15
  model "a count": nclose(K(c)) >= 0
  requires [C07,C15] "the old socket is closed": c.conn == nil || nclose(K(c)) > 0
