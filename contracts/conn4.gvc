# package bolt: summaries and the sql adapters
using conn

def MAP(x) = as(x, "map[string]interface{}")
def STATS(m) = MAP(get(m, "stats"))
def stat(m, k) = ite(has(STATS(m), k), as(get(STATS(m), k), "int64"), 0)
def small(n) = -1000000000000000000 <= n && n <= 1000000000000000000
def okstat(m, k) = imp(has(STATS(m), k), is(get(STATS(m), k), "int64"))
def okstats(m) = is(get(m, "stats"), "map[string]interface{}") && okstat(m, "nodes-created") && okstat(m, "relationships-created") && okstat(m, "nodes-deleted") && okstat(m, "relationships-deleted")
def smallstats(m) = small(stat(m, "nodes-created")) && small(stat(m, "relationships-created")) && small(stat(m, "nodes-deleted")) && small(stat(m, "relationships-deleted"))

func bolt.(boltResult).RowsAffected(r) (n, err)
  props C18
  panics [C18]
  split err == nil
  ensures [C18] "no statistics": imp(!has(r.metadata, "stats"), err == nil && n == 0)
  ensures [C18] "malformed statistics": imp(has(r.metadata, "stats"), iff(err == nil, okstats(r.metadata)))
  ensures [C18] "the sum": imp(has(r.metadata, "stats") && err == nil && smallstats(r.metadata), n == stat(r.metadata, "nodes-created") + stat(r.metadata, "relationships-created") + stat(r.metadata, "nodes-deleted") + stat(r.metadata, "relationships-deleted"))

func bolt.(boltResult).Metadata(r) (m)
  props C18
  panics [C18]
  ensures [C18] "the summary": m == r.metadata

func bolt.(boltRows).Metadata(r) (m)
  props C18
  panics [C18]
  requires "rows": r != nil
  ensures [C18] "the summary": m == r.metadata

def FIELDS(r) = as(get(r.metadata, "fields"), "[]interface{}")
func bolt.(boltRows).Columns(r) (cols)
  props C18
  panics [C18]
  requires "rows": r != nil
  invariant "names": len(L_fieldsStr) == len(FIELDS(r)) && iter <= len(FIELDS(r)) && forall(j, 0, iter, is(FIELDS(r)[j], "string") && L_fieldsStr[j] == as(FIELDS(r)[j], "string"))
  ensures [C18] "no columns": imp(!has(r.metadata, "fields") || !is(get(r.metadata, "fields"), "[]interface{}"), len(cols) == 0)
  ensures [C18] "the columns announced": imp(len(cols) > 0, len(cols) == len(FIELDS(r)) && forall(j, 0, len(cols), cols[j] == as(FIELDS(r)[j], "string")))

# the value of a row for database/sql
def composite(x) = is(x, "[]interface{}") || is(x, "map[string]interface{}") || is(x, "graph.Node") || is(x, "graph.Path") || is(x, "graph.Relationship") || is(x, "graph.UnboundRelationship")
def basic(x) = x == nil || is(x, "int64") || is(x, "float64") || is(x, "bool") || is(x, "string")
def converted(y, x) = ite(composite(x), is(y, "[]uint8") && message(bytes(as(y, "[]uint8")), pack(x)), imp(basic(x), y == x))

func bolt.(boltRows).Next(r, dest) (err)
  props C18
  panics [C18]
  let s := r.statement
  let c := r.statement.conn
  ghost j Int
  requires "rows": r != nil
  requires "open rows belong to an open connection": imp(!r.closed, belongs(r) && INV(c) && len(s.queries) == 0)
  modifies elems(dest), when(!r.closed && !r.finishedConsume, _m(ALL_m(c), r.consumed, r.finishedConsume))
  split err == nil
  plain all
  invariant "converted": iter <= len(L_data) && imp(0 <= j && j < iter, converted(dest[j], L_data[j]))
  ensures [C18] "the values of the record": imp(old(taking(r)) && conf(K(c)) && err == nil, len(dest) == len(Fields(rec(K(c), old(RE(c)), old(RI(c))))) && imp(0 <= j && j < len(dest), converted(dest[j], Fields(rec(K(c), old(RE(c)), old(RI(c))))[j])))

# the parameters for a statement from the arguments of database/sql: argument p
# holds the marshalled map x; k is any key
def BYTES(v) = as(v, "[]uint8")
def holds(a, x) = is(a, "[]uint8") && message(bytes(BYTES(a)), pack(x)) && dec(x) && is(x, "map[string]interface{}") && MAP(x) != nil
def given(args, p, x) = 0 <= p && p < len(args) && holds(args[p], x)

func bolt.driverArgsToMap(args) (m, err)
  props C18
  panics [C18]
  ghost p Int, k Str, x Any
  use any
  plain all
  fresh m
  split err == nil
  invariant "kind": imp(0 <= p && p < iter, is(args[p], "[]uint8"))
  invariant "each": imp(given(args, p, x) && has(MAP(x), k) && p < iter, has(L_output, k))
  invariant "the last": imp(given(args, p, x) && has(MAP(x), k) && p < iter && p == len(args)-1, same(get(L_output, k), get(MAP(x), k)))
  invariant "nothing else": imp(given(args, p, x) && !has(MAP(x), k) && len(args) == 1, !has(L_output, k))
  invariant "in bounds": iter <= len(args)
  invariant "empty": imp(iter == 0, !has(L_output, k))
  invariant "added": imp(has(L_params, k) && keypos(L_params, k) < iter, has(L_output, k) && get(L_output, k) == get(L_params, k))
  invariant "kept": imp(start(has(L_output, k)), has(L_output, k))
  invariant "not added": imp(!has(L_params, k), iff(has(L_output, k), start(has(L_output, k))))
  ensures [C18] "refused": imp(err == nil && 0 <= p && p < len(args), is(args[p], "[]uint8"))
  ensures [C18] "a map": imp(err == nil, m != nil)
  ensures [C18] "no arguments": imp(len(args) == 0, err == nil && !has(m, k))
  ensures [C18] "accepted": imp(len(args) == 1 && given(args, p, x), err == nil)
  ensures [C18] "every entry": imp(err == nil && given(args, p, x) && has(MAP(x), k), has(m, k))
  ensures [C18] "of the last argument": imp(err == nil && given(args, p, x) && has(MAP(x), k) && p == len(args)-1, same(get(m, k), get(MAP(x), k)))
  ensures [C18] "nothing else": imp(err == nil && given(args, p, x) && !has(MAP(x), k) && len(args) == 1, !has(m, k))
