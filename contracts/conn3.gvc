# package bolt: the operations of users
using conn

# a connection between operations
def STRUCT(c) = W(c) && imp(c.closed, c.statement == nil) && imp(c.connErr == nil && !c.closed, S(c))
def INV(c) = STRUCT(c) && imp(LIVE(c) && !c.closed, wellkept(c) && STATE(c))
def belongs(r) = r.statement != nil && r.statement.rows == r && !r.statement.closed && r.statement.conn != nil && r.statement.conn.statement == r.statement && !r.statement.conn.closed
def registered(s) = s.conn != nil && s.conn.statement == s && !s.conn.closed
def free(c) = c.statement == nil && !c.closed
def Meta(v) = as(v, "messages.SuccessMessage").Metadata
def Fields(v) = as(v, "messages.RecordMessage").Fields
def sentRun(c, q, p) = sent(K(c)) == snoc(old(sent(K(c))), RUN(q, p))
def sentRunPull(c, q, p) = sent(K(c)) == snoc(snoc(old(sent(K(c))), RUN(q, p)), PULL())
def sentNone(c) = sent(K(c)) == old(sent(K(c)))
def noTrace(c) = sentNone(c) && wlog(K(c)) == old(wlog(K(c)))
def STMT(x) = as(x, "*bolt.boltStmt")
def TX(x) = as(x, "*bolt.boltTx")
def taking(r) = !r.closed && !r.finishedConsume

func bolt.(boltConn).prepare(c, query) (stmt, err)
  props C08 C11 C16 C20
  panics [C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), c.statement)
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C11] "one statement": imp(old(free(c)), err == nil && stmt != nil && c.statement == stmt && !stmt.closed && stmt.rows == nil && stmt.conn == c)
  ensures [C20] "of the query": imp(old(free(c)), stmt.query == query && len(stmt.queries) == 0)
  ensures [C11] "the objects fit together": imp(!old(c.closed), STRUCT(c))
  ensures [C08] "responses match requests": imp(!old(c.closed), INV(c))

func bolt.(boltConn).PreparePipeline(c, queries) (st, err)
  props C08 C11 C14 C16 C20
  panics [C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), c.statement)
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C11] "one statement": imp(old(free(c)), err == nil && is(st, "*bolt.boltStmt") && STMT(st) != nil && c.statement == STMT(st) && !STMT(st).closed && STMT(st).rows == nil && STMT(st).conn == c)
  ensures [C14,C20] "of the queries": imp(old(free(c)), STMT(st).queries == queries)
  ensures [C11] "the objects fit together": imp(!old(c.closed), STRUCT(c))
  ensures [C08] "responses match requests": imp(!old(c.closed), INV(c))

func bolt.(boltConn).Begin(c) (tx, err)
  props C08 C09 C10 C11 C12 C15 C16 C20
  panics [C08,C09,C10,C12]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c) && c.transaction == nil, _m(ALL_m(c), c.transaction))
  split err == nil
  ensures [C11,C12,C16,C20] "refused": imp(!old(free(c)) || old(c.transaction) != nil, err != nil)
  ensures [C12,C20] "sends BEGIN": imp(err == nil, sentRunPull(c, "BEGIN", 0))
  ensures [C12] "open": imp(err == nil, is(tx, "*bolt.boltTx") && TX(tx) != nil && c.transaction == TX(tx) && !TX(tx).closed && TX(tx).conn == c)
  ensures [C12] "or not": imp(err != nil, c.transaction == old(c.transaction))
  ensures "no statement": imp(old(free(c)), c.statement == nil)
  ensures [C11] "the objects fit together": imp(!old(c.closed), (STRUCT(c)))
  ensures [C08] "responses match requests": imp(!old(c.closed), (INV(c)))
  ensures [C10] "a fault is reported": (fault(c, err))
  ensures [C10] "broken stays broken": (broken(c) && imp(old(c.connErr) != nil && old(free(c)) && old(c.transaction) == nil, err != nil && imp(enc(RUN("BEGIN", 0)), BAD(cause(err)))))
  ensures [C09] "a failure is reported": (failure(c, err))
  ensures [C15] "the connection": (alive(c) || killed(c))

func bolt.(boltConn).queryNeo(c, query, params) (rows, err)
  props C08 C09 C10 C11 C13 C15 C16 C20
  panics [C08,C09,C10,C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  fresh rows
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C11] "open": imp(err == nil, rows != nil && !rows.closed && belongs(rows) && rows.statement.conn == c && rows.closeStatement && rows.consumed && !rows.finishedConsume && len(rows.statement.queries) == 0)
  ensures "new objects": imp(err == nil, new(rows.statement))
  ensures [C11] "or free": imp(err != nil && old(free(c)), c.statement == nil)
  ensures [C20] "sends the query": imp(err == nil, sentRunPull(c, query, params))
  ensures [C20] "or part of it": imp(err != nil, sentNone(c) || sentRun(c, query, params) || sentRunPull(c, query, params))
  ensures [C06,C20] "or nothing": imp(!enc(RUN(query, params)), err != nil && noTrace(c))
  ensures [C13] "the columns announced": imp(conf(K(c)) && err == nil, rows.metadata == Meta(summ(K(c), old(SE(c)), 0)) && RE(c) == old(SE(c)) && RI(c) == 0)
  ensures "a number of records": imp(conf(K(c)) && err == nil, nrec(K(c), old(SE(c))) >= 0)
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))
  ensures [C10] "a fault is reported": imp(old(free(c)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(free(c)), broken(c) && imp(old(c.connErr) != nil, err != nil && imp(enc(RUN(query, params)), BAD(cause(err)))))
  ensures [C09] "a failure is reported": imp(old(free(c)), failure(c, err))
  ensures [C15] "the connection": imp(old(free(c)), alive(c) || killed(c))

func bolt.(boltStmt).queryNeo(s, params) (rows, err)
  props C08 C09 C10 C11 C13 C15 C20
  panics [C08,C09,C10,C11]
  let c := s.conn
  requires "statement": s != nil && len(s.queries) == 0
  requires "of a connection": imp(!s.closed, registered(s) && INV(c))
  modifies when(!s.closed && s.rows == nil, _m(ALL_m(c), s.rows))
  fresh rows
  split err == nil
  ensures [C11,C20] "refused": imp(old(s.closed) || old(s.rows) != nil, err != nil)
  ensures [C11] "open": imp(err == nil, rows != nil && !rows.closed && s.rows == rows && belongs(rows) && !rows.closeStatement && !rows.consumed && !rows.finishedConsume)
  ensures [C11] "or free": imp(err != nil && old(!s.closed && s.rows == nil), s.rows == nil)
  ensures [C20] "sends the query": imp(err == nil, sentRun(c, s.query, params))
  ensures [C20] "or nothing": imp(err != nil && old(!s.closed && s.rows == nil), sentNone(c) || sentRun(c, s.query, params))
  ensures [C06,C20] "refused parameters leave no trace": imp(!enc(RUN(s.query, params)) && old(!s.closed && s.rows == nil), err != nil && noTrace(c))
  ensures [C13] "the columns announced": imp(err == nil && conf(K(c)), rows.metadata == Meta(summ(K(c), old(SE(c)), 0)) && RE(c) == old(SE(c)) && RI(c) == 0)
  ensures [C11] "the objects fit together": imp(old(!s.closed && s.rows == nil), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(!s.closed && s.rows == nil), INV(c))
  ensures [C10] "a fault is reported": imp(old(!s.closed && s.rows == nil), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(!s.closed && s.rows == nil), broken(c) && imp(old(c.connErr) != nil, err != nil && imp(enc(RUN(s.query, params)), BAD(cause(err)))))
  ensures [C09] "a failure is reported": imp(old(!s.closed && s.rows == nil), failure(c, err))
  ensures [C15] "the connection": imp(old(!s.closed && s.rows == nil), alive(c) || killed(c))

func bolt.(boltStmt).ExecNeo(s, params) (res, err)
  props C08 C09 C10 C11 C15 C18 C20
  panics [C08,C09,C10,C11]
  let c := s.conn
  requires "statement": s != nil
  requires "of a connection": imp(!s.closed, s.conn != nil && INV(c) && (registered(s) || c.statement == nil && !c.closed && s.rows == nil))
  modifies when(!s.closed && s.rows == nil, ALL_m(c))
  split err == nil
  ensures [C11,C20] "refused": imp(old(s.closed) || old(s.rows) != nil, err != nil)
  ensures [C20] "sends the query": imp(err == nil, sentRunPull(c, s.query, params))
  ensures [C20] "or part of it": imp(err != nil && old(!s.closed && s.rows == nil), sentNone(c) || sentRun(c, s.query, params) || sentRunPull(c, s.query, params))
  ensures [C06,C20] "refused parameters leave no trace": imp(!enc(RUN(s.query, params)) && old(!s.closed && s.rows == nil), err != nil && noTrace(c))
  ensures [C18] "the summary": imp(err == nil && conf(K(c)), is(res, "bolt.boltResult") && as(res, "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)), 1)))
  ensures "the statement": imp(old(!s.closed && s.rows == nil), s.rows == nil && (alive(c) && s.closed == old(s.closed) && s.conn == c && c.statement == old(c.statement) || c.statement == nil))
  ensures [C11] "the objects fit together": imp(old(!s.closed && s.rows == nil), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(!s.closed && s.rows == nil), INV(c))
  ensures [C10] "a fault is reported": imp(old(!s.closed && s.rows == nil), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(!s.closed && s.rows == nil), broken(c) && imp(old(c.connErr) != nil, err != nil && imp(enc(RUN(s.query, params)), BAD(cause(err)))))
  ensures [C09] "a failure is reported": imp(old(!s.closed && s.rows == nil), failure(c, err))
  ensures [C15] "the connection": imp(old(!s.closed && s.rows == nil), alive(c) || killed(c))

func bolt.(boltConn).ExecNeo(c, query, params) (res, err)
  props C08 C09 C10 C11 C15 C18 C16 C20
  panics [C08,C09,C10,C11]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C20] "sends the query": imp(err == nil, sentRunPull(c, query, params))
  ensures [C20] "or part of it": imp(err != nil, sentNone(c) || sentRun(c, query, params) || sentRunPull(c, query, params))
  ensures [C06,C20] "or nothing": imp(!enc(RUN(query, params)), err != nil && noTrace(c))
  ensures [C18] "the summary": imp(err == nil && conf(K(c)), is(res, "bolt.boltResult") && as(res, "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)), 1)))
  ensures [C11] "free again": imp(old(free(c)), c.statement == nil)
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))
  ensures [C10] "a fault is reported": imp(old(free(c)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(free(c)), broken(c) && imp(old(c.connErr) != nil, err != nil && imp(enc(RUN(query, params)), BAD(cause(err)))))
  ensures [C09] "a failure is reported": imp(old(free(c)), failure(c, err))
  ensures [C15] "the connection": imp(old(free(c)), alive(c) || killed(c))

func bolt.(boltRows).NextNeo(r) (row, meta, err)
  props C08 C09 C10 C11 C13 C15 C20
  panics [C08,C09,C10,C11,C13]
  let s := r.statement
  let c := r.statement.conn
  requires "rows": r != nil
  requires "open rows belong to an open connection": imp(!r.closed, belongs(r) && INV(c) && len(s.queries) == 0)
  modifies when(!r.closed && !r.finishedConsume, _m(ALL_m(c), r.consumed, r.finishedConsume))
  split err == nil
  ensures [C11] "refused": imp(old(r.closed), err != nil && err != EOF())
  ensures [C13] "the end stays": imp(!old(r.closed) && old(r.finishedConsume), err == EOF() && row == nil)
  ensures [C13] "the next record": imp(old(taking(r)) && conf(K(c)) && err == nil, old(RI(c)) < nrec(K(c), old(RE(c))) && row == Fields(rec(K(c), old(RE(c)), old(RI(c)))) && RE(c) == old(RE(c)) && RI(c) == old(RI(c)) + 1)
  ensures [C13] "a record": imp(old(taking(r)) && err == nil, row != nil || !conf(K(c)))
  ensures [C13] "the summary": imp(old(taking(r)) && conf(K(c)) && err == EOF(), old(RI(c)) >= nrec(K(c), old(RE(c))) && meta == Meta(summ(K(c), old(RE(c)), 1)) && row == nil && r.finishedConsume && RE(c) == old(RE(c)) + 1)
  ensures [C13] "more may follow": imp(old(taking(r)) && err == nil, !r.closed && r.consumed && !r.finishedConsume && belongs(r))
  ensures "kept": imp(old(taking(r)) && (err == nil || err == EOF() || c.connErr == nil), KEPT(c))
  ensures [C09,C13] "the end is no failure": imp(old(taking(r)) && conf(K(c)) && err == EOF(), nofail(c))
  ensures [C13] "nothing follows": imp(old(taking(r)) && err != nil && conf(K(c)), r.closed || r.finishedConsume)
  ensures [C11] "belongs": imp(old(taking(r)), r.closed || belongs(r) && s.conn == c && alive(c))
  ensures [C11] "asked": imp(old(taking(r)), r.consumed)
  ensures [C11] "closed with the connection": imp(old(taking(r)) && r.closed, c.statement == nil && killed(c))
  ensures [C20] "asks for the records once": imp(old(taking(r)), ite(old(r.consumed), sentNone(c), sent(K(c)) == snoc(old(sent(K(c))), PULL()) || err != nil && err != EOF() && sentNone(c)))
  ensures [C11] "the objects fit together": imp(old(taking(r)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(taking(r)), INV(c))
  ensures [C10] "a fault is reported": imp(old(taking(r)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(taking(r)), broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err))))
  ensures [C09] "a failure is reported": imp(old(taking(r)), failure(c, err))
  ensures [C15] "the connection": imp(old(taking(r)), alive(c) || killed(c))


# the records of a result from position i on
def rowsFrom(c, out, e, i) = len(out) == nrec(K(c), e) - i && forall(j, 0, len(out), out[j] == Fields(rec(K(c), e, i + j)))

func bolt.(boltRows).All(r) (out, meta, err)
  props C08 C09 C10 C11 C13 C15 C20
  panics [C08,C09,C10,C11,C13]
  let s := r.statement
  let c := r.statement.conn
  requires "rows": r != nil
  requires "open rows belong to an open connection": imp(!r.closed, belongs(r) && INV(c) && len(s.queries) == 0)
  modifies when(!r.closed && !r.finishedConsume, _m(ALL_m(c), r.consumed, r.finishedConsume))
  split err == nil
  invariant "not touched": imp(iter == 0, untouched(c) && r.consumed == old(r.consumed) && imp(!r.closed, belongs(r) && INV(c)))
  invariant "open": imp(iter > 0, old(taking(r)) && taking(r) && r.consumed && belongs(r)) && imp(old(taking(r)), r.statement == s && s.conn == c && alive(c))
  invariant "kept": imp(old(taking(r)), KEPT(c))
  invariant "in order": imp(old(taking(r)), INV(c) && fault(c, nil) && broken(c) && imp(old(c.connErr) != nil, iter == 0) && failure(c, nil))
  invariant "rows in order": imp(old(taking(r)) && conf(K(c)), RE(c) == old(RE(c)) && RI(c) == old(RI(c)) + iter && len(L_output) == iter && imp(iter > 0, RI(c) <= nrec(K(c), old(RE(c)))) && forall(j, 0, iter, L_output[j] == Fields(rec(K(c), old(RE(c)), old(RI(c)) + j))))
  invariant "asked": imp(old(taking(r)), ite(iter == 0 || old(r.consumed), sentNone(c), sent(K(c)) == snoc(old(sent(K(c))), PULL())))
  ensures [C11] "refused": imp(old(r.closed), err != nil)
  ensures [C13] "all rows": imp(old(taking(r)) && conf(K(c)) && err == nil && old(RI(c)) <= nrec(K(c), old(RE(c))), rowsFrom(c, out, old(RE(c)), old(RI(c))))
  ensures [C13] "the summary": imp(old(taking(r)) && conf(K(c)) && err == nil, meta == Meta(summ(K(c), old(RE(c)), 1)) && RE(c) == old(RE(c)) + 1)
  ensures "kept": imp(old(taking(r)) && (err == nil || c.connErr == nil), KEPT(c))
  ensures [C13] "nothing follows": imp(old(taking(r)) && conf(K(c)), r.closed || r.finishedConsume)
  ensures [C11] "belongs": imp(old(taking(r)), r.closed || belongs(r) && s.conn == c && alive(c))
  ensures [C11] "asked": imp(old(taking(r)), r.consumed)
  ensures [C11] "closed with the connection": imp(old(taking(r)) && r.closed, c.statement == nil && killed(c))
  ensures [C20] "asks for the records once": imp(old(taking(r)), ite(old(r.consumed), sentNone(c), sent(K(c)) == snoc(old(sent(K(c))), PULL()) || err != nil && err != EOF() && sentNone(c)))
  ensures [C11] "the objects fit together": imp(old(taking(r)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(taking(r)), INV(c))
  ensures [C10] "a fault is reported": imp(old(taking(r)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(taking(r)), broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err))))
  ensures [C09] "a failure is reported": imp(old(taking(r)), failure(c, err))
  ensures [C15] "the connection": imp(old(taking(r)), alive(c) || killed(c))

# the requests of a pipeline
def pipeSent(c, s, params, n) = nsent(sent(K(c))) == nsent(old(sent(K(c)))) + 2*n && forall(j, 0, n, sentat(sent(K(c)), nsent(old(sent(K(c)))) + 2*j) == RUN(s.queries[j], params[j]) && sentat(sent(K(c)), nsent(old(sent(K(c)))) + 2*j + 1) == PULL())
def ROWS(x) = as(x, "*bolt.boltRows")
def idlestmt(s) = !s.closed && s.rows == nil

func bolt.(boltStmt).QueryPipeline(s, params) (rows, err)
  props C08 C09 C10 C11 C13 C14 C15 C20
  panics [C08,C09,C10,C11,C14]
  let c := s.conn
  let ok := idlestmt(s) && len(params) == len(s.queries) && len(s.queries) > 0
  requires "statement": s != nil
  requires "of a connection": imp(!s.closed, registered(s) && INV(c))
  modifies when(!s.closed && s.rows == nil, _m(ALL_m(c), s.rows))
  split err == nil
  invariant "sent": pipeSent(c, s, params, iter) && imp(old(c.connErr) != nil, iter == 0) && KEPT(c) && fault(c, nil) && broken(c) && W(c)
  invariant "owed": imp(LIVE(c) && old(LIVE(c)), READY(c) && SP(c) == 0 && RP(c) == 0 && RE(c) == old(RE(c)) && SE(c) == old(SE(c)) + iter && nofail(c))
  invariant "well": imp(conf(K(c)) && old(c.connErr) == nil, nofail(c)) && imp(iter > 0, c.connErr == nil) && imp(iter == 0, untouched(c))
  ensures [C11,C20] "refused": imp(!old(idlestmt(s)), err != nil)
  ensures [C14] "count": imp(!ok, err != nil && imp(!old(s.closed), noTrace(c)))
  ensures [C11] "open": imp(err == nil, is(rows, "*bolt.boltRows") && ROWS(rows) != nil && taking(ROWS(rows)) && s.rows == ROWS(rows) && belongs(ROWS(rows)) && ROWS(rows).statement == s && s.conn == c && !ROWS(rows).closeStatement && ROWS(rows).consumed && ROWS(rows).pipelineIndex == 0)
  ensures "new objects": imp(err == nil, new(ROWS(rows)))
  ensures [C11] "the statement": imp(old(idlestmt(s)) && err != nil, alive(c) && c.statement == s && !s.closed && s.conn == c || killed(c) && s.closed && c.statement == nil)
  ensures [C11] "or free": imp(err != nil && old(idlestmt(s)), s.rows == nil)
  ensures [C14,C20] "sends the queries": imp(err == nil, pipeSent(c, s, params, len(s.queries)))
  ensures [C13,C14] "the columns announced": imp(err == nil && conf(K(c)), ROWS(rows).metadata == Meta(summ(K(c), old(SE(c)), 0)) && RE(c) == old(SE(c)) && RI(c) == 0)
  ensures [C11] "the objects fit together": imp(old(idlestmt(s)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(idlestmt(s)), INV(c))
  ensures [C10] "a fault is reported": imp(old(idlestmt(s)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(idlestmt(s)), broken(c) && imp(old(c.connErr) != nil, err != nil))
  ensures [C09] "a failure is reported": imp(old(idlestmt(s)), failure(c, err))
  ensures [C15] "the connection": imp(old(idlestmt(s)), alive(c) || killed(c))
  ensures "kept": imp(old(idlestmt(s)) && (err == nil || c.connErr == nil), alive(c) && c.statement == old(c.statement) && s.closed == old(s.closed) && s.conn == c)

func bolt.(boltConn).QueryPipeline(c, queries, params) (rows, err)
  props C08 C09 C10 C11 C13 C14 C15 C16 C20
  panics [C08,C09,C10,C11,C14]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C14] "count": imp(len(queries) != len(params) || len(queries) == 0, err != nil && noTrace(c))
  ensures [C11] "open": imp(err == nil, is(rows, "*bolt.boltRows") && ROWS(rows) != nil && taking(ROWS(rows)) && belongs(ROWS(rows)) && ROWS(rows).statement.conn == c && ROWS(rows).closeStatement && ROWS(rows).consumed && ROWS(rows).pipelineIndex == 0 && ROWS(rows).statement.queries == queries)
  ensures "new objects": imp(err == nil, new(ROWS(rows)) && new(ROWS(rows).statement))
  ensures [C11] "or free": imp(err != nil && old(free(c)), c.statement == nil)
  ensures [C14,C20] "sends the queries": imp(err == nil, nsent(sent(K(c))) == nsent(old(sent(K(c)))) + 2*len(queries) && forall(j, 0, len(queries), sentat(sent(K(c)), nsent(old(sent(K(c)))) + 2*j) == RUN(queries[j], params[j]) && sentat(sent(K(c)), nsent(old(sent(K(c)))) + 2*j + 1) == PULL()))
  ensures [C13,C14] "the columns announced": imp(err == nil && conf(K(c)), ROWS(rows).metadata == Meta(summ(K(c), old(SE(c)), 0)) && RE(c) == old(SE(c)) && RI(c) == 0)
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))
  ensures [C10] "a fault is reported": imp(old(free(c)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(free(c)), broken(c) && imp(old(c.connErr) != nil, err != nil))
  ensures [C09] "a failure is reported": imp(old(free(c)), failure(c, err))
  ensures [C15] "the connection": imp(old(free(c)), alive(c) || killed(c))

func bolt.(boltRows).NextPipeline(r) (row, meta, next, err)
  props C08 C09 C10 C11 C13 C14 C15 C20
  panics [C08,C09,C10,C11,C13,C14]
  let s := r.statement
  let c := r.statement.conn
  requires "rows": r != nil
  requires "open rows belong to an open connection": imp(!r.closed, belongs(r) && INV(c) && len(s.queries) > 0 && r.consumed)
  modifies when(!r.closed && !r.finishedConsume, _m(ALL_m(c), r.closed, r.finishedConsume, s.rows))
  split err == nil
  ensures [C11] "refused": imp(old(r.closed), err != nil && err != EOF())
  ensures [C13] "the end stays": imp(!old(r.closed) && old(r.finishedConsume), err == EOF() && row == nil && next == nil)
  ensures [C13,C14] "the next record": imp(old(taking(r)) && conf(K(c)) && err == nil && old(RI(c)) < nrec(K(c), old(RE(c))), row == Fields(rec(K(c), old(RE(c)), old(RI(c)))) && row != nil && next == nil && RE(c) == old(RE(c)) && RI(c) == old(RI(c)) + 1 && taking(r) && s.rows == r)
  ensures [C13,C14] "the next result": imp(old(taking(r)) && conf(K(c)) && err == nil && old(RI(c)) >= nrec(K(c), old(RE(c))), row == nil && RE(c) == old(RE(c)) + 1 && RI(c) == 0 && ite(old(r.pipelineIndex) == len(s.queries) - 1, next == nil && r.finishedConsume && !r.closed, r.closed && is(next, "*bolt.boltRows") && ROWS(next) != nil && taking(ROWS(next)) && ROWS(next).consumed && ROWS(next).metadata == Meta(summ(K(c), old(RE(c)) + 1, 0)) && meta == ROWS(next).metadata && ROWS(next).pipelineIndex == old(r.pipelineIndex) + 1 && ROWS(next).closeStatement == r.closeStatement && ROWS(next).statement == s && s.rows == ROWS(next)))
  ensures [C14] "whose query": imp(old(taking(r)) && old(LIVE(c)), old(RE(c)) == old(SE(c)) - len(s.queries) + old(r.pipelineIndex))
  ensures "new objects": imp(next != nil, new(ROWS(next)))
  ensures [C13] "nothing follows": imp(old(taking(r)) && err != nil && conf(K(c)), r.closed || r.finishedConsume)
  ensures [C11] "belongs": imp(old(taking(r)), r.closed || belongs(r) && s.conn == c && alive(c))
  ensures [C11] "the next belongs": imp(old(taking(r)) && next != nil, belongs(ROWS(next)))
  ensures "kept": imp(old(taking(r)) && (err == nil || c.connErr == nil), alive(c) && c.statement == s && !s.closed && s.conn == c)
  ensures [C20] "sends nothing": imp(old(taking(r)), sentNone(c))
  ensures [C11] "the objects fit together": imp(old(taking(r)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(taking(r)), INV(c))
  ensures [C10] "a fault is reported": imp(old(taking(r)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(taking(r)), broken(c) && imp(old(c.connErr) != nil, err != nil && BAD(cause(err))))
  ensures [C09] "a failure is reported": imp(old(taking(r)), failure(c, err))
  ensures [C15] "the connection": imp(old(taking(r)), alive(c) || killed(c))

func bolt.(boltStmt).ExecPipeline(s, params) (results, err)
  props C08 C09 C10 C11 C14 C15 C18 C20
  panics [C08,C09,C10,C11,C14]
  let c := s.conn
  requires "statement": s != nil
  requires "of a connection": imp(!s.closed, s.conn != nil && INV(c) && (registered(s) || c.statement == nil && !c.closed && s.rows == nil))
  modifies when(!s.closed && s.rows == nil, ALL_m(c))
  split err == nil
  invariant "kept": KEPT(c) && fault(c, nil) && broken(c) && W(c)
  invariant "sent": imp(old(c.connErr) != nil, iter == 0) && pipeSent(c, s, params, iter) && imp(iter > 0, c.connErr == nil) && imp(iter == 0, untouched(c))
  invariant "owed": imp(LIVE(c) && old(LIVE(c)), READY(c) && SP(c) == 0 && RP(c) == 0 && RE(c) == old(RE(c)) && SE(c) == old(SE(c)) + iter && nofail(c))
  invariant "all sent": pipeSent(c, s, params, len(s.queries)) && len(L_results) == len(s.queries)
  invariant "taken": imp(conf(K(c)) && old(c.connErr) == nil, len(L_results) == len(s.queries) && READY(c) && SP(c) == 0 && RP(c) == 0 && RE(c) == old(RE(c)) + iter && SE(c) == old(SE(c)) + len(s.queries) && nofail(c))
  invariant "results": imp(conf(K(c)), forall(j, 0, iter, is(L_results[j], "bolt.boltResult") && as(L_results[j], "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)) + j, 1))))
  ensures [C11,C20] "refused": imp(!old(idlestmt(s)), err != nil)
  ensures [C14] "count": imp(len(s.queries) != len(params), err != nil && imp(!old(s.closed), noTrace(c)))
  ensures [C14,C20] "sends the queries": imp(err == nil, pipeSent(c, s, params, len(s.queries)))
  ensures [C14,C18] "the results": imp(err == nil && conf(K(c)), len(results) == len(s.queries) && forall(j, 0, len(s.queries), is(results[j], "bolt.boltResult") && as(results[j], "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)) + j, 1))))
  ensures "the statement": imp(old(idlestmt(s)), s.rows == nil && (alive(c) && s.closed == old(s.closed) && s.conn == c && c.statement == old(c.statement) || c.statement == nil))
  ensures [C11] "the objects fit together": imp(old(idlestmt(s)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(idlestmt(s)), INV(c))
  ensures [C10] "a fault is reported": imp(old(idlestmt(s)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(idlestmt(s)), broken(c) && imp(old(c.connErr) != nil && len(s.queries) > 0, err != nil))
  ensures [C09] "a failure is reported": imp(old(idlestmt(s)), failure(c, err))
  ensures [C15] "the connection": imp(old(idlestmt(s)), alive(c) || killed(c))

func bolt.(boltConn).ExecPipeline(c, queries, params) (results, err)
  props C08 C09 C10 C11 C14 C15 C18 C16 C20
  panics [C08,C09,C10,C11,C14]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C14] "count": imp(len(queries) != len(params), err != nil && noTrace(c))
  ensures [C14,C20] "sends the queries": imp(err == nil, nsent(sent(K(c))) == nsent(old(sent(K(c)))) + 2*len(queries) && forall(j, 0, len(queries), sentat(sent(K(c)), nsent(old(sent(K(c)))) + 2*j) == RUN(queries[j], params[j]) && sentat(sent(K(c)), nsent(old(sent(K(c)))) + 2*j + 1) == PULL()))
  ensures [C14,C18] "the results": imp(err == nil && conf(K(c)), len(results) == len(queries) && forall(j, 0, len(queries), is(results[j], "bolt.boltResult") && as(results[j], "bolt.boltResult").metadata == Meta(summ(K(c), old(SE(c)) + j, 1))))
  ensures [C11] "free again": imp(old(free(c)), c.statement == nil)
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))
  ensures [C10] "a fault is reported": imp(old(free(c)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(free(c)), broken(c) && imp(old(c.connErr) != nil && len(queries) > 0, err != nil))
  ensures [C09] "a failure is reported": imp(old(free(c)), failure(c, err))
  ensures [C15] "the connection": imp(old(free(c)), alive(c) || killed(c))

func bolt.(boltConn).QueryNeoAll(c, query, params) (data, meta, summary, err)
  props C08 C09 C10 C11 C13 C15 C16 C20
  panics [C08,C09,C10,C11,C13]
  requires "connection": c != nil && imp(!c.closed, INV(c))
  modifies when(free(c), ALL_m(c))
  split err == nil
  ensures [C11,C16,C20] "refused": imp(!old(free(c)), err != nil)
  ensures [C20] "sends the query": imp(err == nil, sentRunPull(c, query, params))
  ensures [C06,C20] "or nothing": imp(!enc(RUN(query, params)), err != nil && noTrace(c))
  ensures [C13] "all rows": imp(conf(K(c)) && err == nil, rowsFrom(c, data, old(SE(c)), 0) && meta == Meta(summ(K(c), old(SE(c)), 0)) && summary == Meta(summ(K(c), old(SE(c)), 1)))
  ensures [C11] "free again": imp(old(free(c)), c.statement == nil)
  ensures [C11] "the objects fit together": imp(old(free(c)), STRUCT(c))
  ensures [C08] "responses match requests": imp(old(free(c)), INV(c))
  ensures [C10] "a fault is reported": imp(old(free(c)) && conf(K(c)), fault(c, err))
  ensures [C10] "broken stays broken": imp(old(free(c)), broken(c) && imp(old(c.connErr) != nil, err != nil && imp(enc(RUN(query, params)), BAD(cause(err)))))
  ensures [C09] "a failure is reported": imp(old(free(c)), failure(c, err))
  ensures [C15] "the connection": imp(old(free(c)), alive(c) || killed(c))
