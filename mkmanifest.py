#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the table below
import json
claimed = {
 "C01": "Every obligation of the encoder under its contract: for all values the bytes given to the stream are pack(v), the canonical PackStream bytes.",
 "C02": "Decoder contracts: for every decodable value x, decoding any chunking of pack(x) gives a value that is same as x and leaves what follows.",
 "C03": "Encoder contracts: whatever the chunk size and contents, the bytes appended to the writer are one well-formed chunk sequence ending in the empty chunk and holding exactly the value's bytes.",
 "C04": "Decoder contracts over an abstract reader that may deliver any number of bytes per call: one message consumed exactly, whatever its chunking.",
 "C05": "Decoder contracts for arbitrary bytes: no panic, termination measure, value only when consumed bytes are there.",
 "C08": "Contracts on every operation that exchanges messages, over a ghost server that owes exactly one response sequence per request: no read without an owed response, nothing owed when no rows are open.",
 "C09": "Same contracts: a failure answered to any request becomes the returned error with its metadata, the server is ready again afterwards and the statement is gone unless the caller holds it.",
 "C10": "Same contracts over a network that may fail in any call: error innermost is ErrBadConn and connErr is set.",
 "C11": "Same contracts: refusal without traffic when a statement is open or anything is closed; close is idempotent and frees the connection.",
 "C12": "Contracts of Begin, Commit, Rollback and conn.Close: tracked, exclusive, confirmed, rolled back on close.",
 "C13": "Contracts of NextNeo, All and QueryNeoAll: records of the server in order and unaltered, then summary and io.EOF.",
 "C14": "Contracts of the pipeline operations: the i-th request, result and result set belong to the i-th query.",
 "C20": "Contracts of the sending operations over the ghost request log: exactly RUN with the caller's query and parameters and PULL_ALL (or DISCARD_ALL), nothing else.",
 "C18": "Contracts of RowsAffected, Metadata, Columns, rows.Next, driverArgsToMap and ExecNeo: exact values for all summaries, rows and argument lists, no panic.",
 "C19": "Contracts of Read, Write, createConn, parseURL and SetTimeout: every transfer is preceded by arming the matching deadline with the timeout in force, every dial uses the timeout.",
 "C17": "Contracts of createBoltConn, parseURL, tlsConfig and createConn over uninterpreted URL, file and certificate functions: what is dialed, how and with which settings, for every connection string.",
 "C07": "Contracts of handShake, sendInit, initialize, newBoltConn, Open and OpenNeo over a ghost socket: what is sent and received before a connection is returned, and one close for every socket of a failed attempt.",
 "C15": "Contracts of reclaim, conn.Close, initialize, OpenPool and createDriverPool with an ownership invariant on the pool's channel: one slot given back per connection taken, only sound idle connections wait.",
 "C16": "Same contracts: a closed handle refuses every operation and changes nothing, a closed pool opens nothing; pool.Close closes every registered connection (one assumed contract).",
 "C06": "Encoder contracts: success exactly for encodable values, nothing written for a refused one, buffer empty afterwards.",
}
pending = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "bash check.sh "+i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh "+i,
          "technique": "deductive verification of function contracts on the Go source (SSA symbolic execution, weakest preconditions, z3), failing inputs replayed on the real code",
          "level": "proof", "level_note": claimed[i]+" Trusted: the verifier govc itself, its library models and value theory, go/ssa, z3; listed in the evidence and in DESIGN.md."})
    else:
        na.append({"property": i, "reason": pending.get(i, "not yet under contract: the contracts for the connection, statement, rows and pool are being built")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Repairs are the fix: commits listed in known-findings.txt."}
open('/verif/MANIFEST.json','w').write(json.dumps(m, indent=1)+"\n")
