# package bolt: the remaining entry points of users, which wrap the others
using conn

func bolt.(boltConn).Prepare(c, query) (st, err)
  props C08 C11 C16 C20
  panics [C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), c.statement)
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C11] "one statement": imp(old(free(c)), err == nil && is(st, "*bolt.boltStmt") && STMT(st) != nil && c.statement == STMT(st) && !STMT(st).closed && STMT(st).rows == nil && STMT(st).conn == c)
  ensures [C20] "of the query": imp(old(free(c)), STMT(st).query == query && len(STMT(st).queries) == 0)
  ensures [C11] "the objects fit together": imp(!old(c.closed), STRUCT(c))
  ensures [C08] "responses match requests": imp(!old(c.closed), INV(c))

func bolt.(boltConn).PrepareNeo(c, query) (st, err)
  props C08 C11 C16 C20
  panics [C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), c.statement)
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C11] "one statement": imp(old(free(c)), err == nil && is(st, "*bolt.boltStmt") && STMT(st) != nil && c.statement == STMT(st) && !STMT(st).closed && STMT(st).rows == nil && STMT(st).conn == c)
  ensures [C20] "of the query": imp(old(free(c)), STMT(st).query == query && len(STMT(st).queries) == 0)
  ensures [C11] "the objects fit together": imp(!old(c.closed), STRUCT(c))
  ensures [C08] "responses match requests": imp(!old(c.closed), INV(c))

func bolt.(boltConn).QueryNeo(c, query, params) (v, err)
  props C08 C09 C10 C11 C13 C16 C20
  panics [C08,C09,C10,C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C11] "open": imp(err == nil, is(v, "*bolt.boltRows") && ROWS(v) != nil && !ROWS(v).closed && belongs(ROWS(v)) && ROWS(v).statement.conn == c && ROWS(v).closeStatement && ROWS(v).consumed && !ROWS(v).finishedConsume)
  ensures [C11] "or free": imp(err != nil && old(free(c)), c.statement == nil)
  ensures [C20] "sends the query": imp(err == nil, sentRunPull(c, query, params))
  ensures [C20] "or part of it": imp(err != nil, sentNone(c) || sentRun(c, query, params) || sentRunPull(c, query, params))
  ensures [C06,C20] "or nothing": imp(!enc(RUN(query, params)), err != nil && noTrace(c))
  ensures [C13] "the columns announced": imp(conf(K(c)) && err == nil, ROWS(v).metadata == Meta(summ(K(c), old(SE(c)), 0)))
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))
  ensures [C10] "a fault is reported": imp(old(free(c)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(free(c)), broken(c) && imp(old(c.connErr) != nil, err != nil))
  ensures [C09] "a failure is reported": imp(old(free(c)), failure(c, err))

func bolt.(boltStmt).QueryNeo(s, params) (v, err)
  props C08 C09 C10 C11 C13 C20
  panics [C08,C09,C10,C11]
  let c := s.conn
  requires "statement": s != nil && len(s.queries) == 0
  requires "of a connection": imp(!s.closed, registered(s) && INV(c))
  modifies when(!s.closed && s.rows == nil, _m(ALL_m(c), s.rows))
  split err == nil
  ensures [C11,C20] "refused": imp(old(s.closed) || old(s.rows) != nil, err != nil)
  ensures [C11] "open": imp(err == nil, is(v, "*bolt.boltRows") && ROWS(v) != nil && !ROWS(v).closed && s.rows == ROWS(v) && belongs(ROWS(v)) && !ROWS(v).closeStatement && !ROWS(v).consumed && !ROWS(v).finishedConsume)
  ensures [C11] "or free": imp(err != nil && old(!s.closed && s.rows == nil), s.rows == nil)
  ensures [C20] "sends the query": imp(err == nil, sentRun(c, s.query, params))
  ensures [C20] "or nothing": imp(err != nil && old(!s.closed && s.rows == nil), sentNone(c) || sentRun(c, s.query, params))
  ensures [C06,C20] "refused parameters leave no trace": imp(!enc(RUN(s.query, params)) && old(!s.closed && s.rows == nil), err != nil && noTrace(c))
  ensures [C13] "the columns announced": imp(err == nil && conf(K(c)), ROWS(v).metadata == Meta(summ(K(c), old(SE(c)), 0)))
  ensures [C11] "the objects fit together": imp(old(!s.closed && s.rows == nil), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(!s.closed && s.rows == nil), INV(c))
  ensures [C10] "a fault is reported": imp(old(!s.closed && s.rows == nil), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(!s.closed && s.rows == nil), broken(c) && imp(old(c.connErr) != nil, err != nil))
  ensures [C09] "a failure is reported": imp(old(!s.closed && s.rows == nil), failure(c, err))

# the calls for database/sql.  The parameters of the last RUN sent:
def PARAMS(c, n) = as(sentat(sent(K(c)), n), "messages.RunMessage").parameters
# hold exactly the entries of the marshalled maps
def everyEntry(P, args, p, x, k) = imp(given(args, p, x) && has(MAP(x), k), has(P, k)) && imp(given(args, p, x) && has(MAP(x), k) && p == len(args)-1, same(get(P, k), get(MAP(x), k))) && imp(given(args, p, x) && !has(MAP(x), k) && len(args) == 1, !has(P, k)) && imp(len(args) == 0, !has(P, k))

func bolt.(boltConn).Query(c, query, args) (v, err)
  props C08 C11 C16 C18 C20
  panics [C18]
  ghost p Int, k Str, x Any
  let n := nsent(sent(K(c)))
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C18] "bad arguments are refused": imp(err == nil && 0 <= p && p < len(args), is(args[p], "[]uint8"))
  ensures [C11] "open": imp(err == nil, is(v, "*bolt.boltRows") && ROWS(v) != nil && !ROWS(v).closed && belongs(ROWS(v)) && ROWS(v).statement.conn == c && ROWS(v).closeStatement)
  ensures [C11] "or free": imp(err != nil && old(free(c)), c.statement == nil)
  ensures [C18,C20] "sends the query": imp(err == nil, sentRunPull(c, query, PARAMS(c, n)))
  ensures [C18] "with the arguments": imp(err == nil, everyEntry(PARAMS(c, n), args, p, x, k))
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))

func bolt.(boltStmt).Query(s, args) (v, err)
  props C08 C11 C18 C20
  panics [C18]
  ghost p Int, k Str, x Any
  let c := s.conn
  let n := nsent(sent(K(s.conn)))
  requires "statement": s != nil && len(s.queries) == 0
  requires "of a connection": imp(!s.closed, registered(s) && INV(c))
  modifies when(!s.closed && s.rows == nil, _m(ALL_m(c), s.rows))
  split err == nil
  ensures [C11,C20] "refused": imp(old(s.closed) || old(s.rows) != nil, err != nil)
  ensures [C18] "bad arguments are refused": imp(err == nil && 0 <= p && p < len(args), is(args[p], "[]uint8"))
  ensures [C11] "open": imp(err == nil, is(v, "*bolt.boltRows") && ROWS(v) != nil && s.rows == ROWS(v) && !ROWS(v).closed && belongs(ROWS(v)))
  ensures [C18,C20] "sends the query": imp(err == nil, sentRun(c, s.query, PARAMS(c, n)))
  ensures [C18] "with the arguments": imp(err == nil, everyEntry(PARAMS(c, n), args, p, x, k))
  ensures [C11] "the objects fit together": imp(old(!s.closed && s.rows == nil), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(!s.closed && s.rows == nil), INV(c))

func bolt.(boltStmt).Exec(s, args) (res, err)
  props C08 C11 C18 C20
  panics [C18]
  ghost p Int, k Str, x Any
  let c := s.conn
  let n := nsent(sent(K(s.conn)))
  requires "statement": s != nil
  requires "of a connection": imp(!s.closed, s.conn != nil && INV(c) && (registered(s) || c.statement == nil && !c.closed && s.rows == nil))
  modifies when(!s.closed && s.rows == nil, ALL_m(c))
  split err == nil
  ensures [C11,C20] "refused": imp(old(s.closed) || old(s.rows) != nil, err != nil)
  ensures [C18] "bad arguments are refused": imp(err == nil && 0 <= p && p < len(args), is(args[p], "[]uint8"))
  ensures [C18,C20] "sends the query": imp(err == nil, sentRunPull(c, s.query, PARAMS(c, n)))
  ensures [C20] "or nothing else": imp(err != nil && old(!s.closed && s.rows == nil), sentNone(c) || sentRun(c, s.query, PARAMS(c, n)) || sentRunPull(c, s.query, PARAMS(c, n)))
  ensures [C18] "with the arguments": imp(err == nil, everyEntry(PARAMS(c, n), args, p, x, k))
  ensures [C18] "the summary": imp(err == nil && conf(K(c)), is(res, "bolt.boltResult") && as(res, "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)), 1)))
  ensures "the statement": imp(old(!s.closed && s.rows == nil), s.rows == nil && (s.closed == old(s.closed) && s.conn == c && c.statement == old(c.statement) || c.statement == nil))
  ensures [C11] "the objects fit together": imp(old(!s.closed && s.rows == nil), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(!s.closed && s.rows == nil), INV(c))

func bolt.(boltConn).Exec(c, query, args) (res, err)
  props C08 C11 C16 C18 C20
  panics [C18]
  ghost p Int, k Str, x Any
  let n := nsent(sent(K(c)))
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C18] "bad arguments are refused": imp(err == nil && 0 <= p && p < len(args), is(args[p], "[]uint8"))
  ensures [C18,C20] "sends the query": imp(err == nil, sentRunPull(c, query, PARAMS(c, n)))
  ensures [C18] "with the arguments": imp(err == nil, everyEntry(PARAMS(c, n), args, p, x, k))
  ensures [C18] "the summary": imp(err == nil && conf(K(c)), is(res, "bolt.boltResult") && as(res, "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)), 1)))
  ensures [C11] "free again": imp(old(free(c)), c.statement == nil)
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))

func bolt.(boltStmt).NumInput(s) (n)
  props C18
  panics [C18]
  ensures [C18] "unknown": n == -1

func bolt.(boltResult).LastInsertId(r) (n, err)
  props C18
  panics [C18]
  ensures [C18] "none": n == -1 && err == nil
