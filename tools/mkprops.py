#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

TEST_REACH = ("The existing tests replay canned recordings: one fixed exchange per test, counted in bytes, delivered whole, "
              "with no latency, no short reads, no faults and one connection at a time; the pool and TLS tests are skipped without a server. ")

prop("C01", "Every result belongs to the call that asked for it",
 "Whatever sequence of queries, executions, prepared statements, pipelines, partial reads, early closes and misuse errors a client issues on a connection, each call returns exactly the rows, column names, row order, metadata and counts of affected rows the server produced for that very statement execution. No row is ever lost, duplicated, reordered, truncated or attributed to another statement, and a result set reports its end exactly when the server ended it. This holds however the server's bytes are cut into chunks and network segments.",
 ["histories", "schedules", "inputs", "configurations"],
 "all API call sequences on one connection, all server result shapes, all segmentations and delays of the byte stream",
 TEST_REACH + "They cannot vary call history and segmentation together.",
 ["conn.go", "stmt.go", "rows.go", "encoding/decoder.go"],
 [("one response consumed per request sent, in order", "conn.go consume/consumeAll/consumeAllMultiple"),
  ("single open statement per connection", "conn.go queryNeo/prepare/PreparePipeline"),
  ("draining unread responses on close", "rows.go Close")],
 ["values returned by Conn/Stmt/Rows/PipelineRows methods"],
 [("statement", "the one statement that may have unread responses", "conn.go boltConn.statement"),
  ("consumed/finishedConsume", "whether PULL_ALL was sent / the stream ended", "rows.go boltRows")])

prop("C02", "Server failures are reported and the session stays usable",
 "When the server answers a statement with a FAILURE (on start, midway through its rows, or while rows are discarded), the call that consumes that answer returns an error whose innermost error is the server's failure message with its metadata intact, never success. The failure is acknowledged so that the next statement on the same connection works normally and gets its own result, including when the failure happened inside a pipeline or the acknowledgement itself was refused and the session had to be reset. After a failure no call waits for answers that will never come.",
 ["histories", "fault_sequences", "inputs"],
 "all call sequences with a server failure at any statement and any point of its result stream, including inside pipelines and transactions",
 TEST_REACH + "Only a handful of failure positions are recorded and none inside a row stream.",
 ["conn.go", "stmt.go", "rows.go", "tx.go"],
 [("ACK_FAILURE / RESET recovery", "conn.go ackFailure/reset"), ("failure turned into an error", "conn.go consume"),
  ("rows finished on error", "rows.go NextNeo/NextPipeline/Close")],
 ["errors returned by the API", "results of later statements on the same connection"])

prop("C03", "A lost or broken connection is never mistaken for success",
 "If the connection is cut, reset, stalls past the timeout or fails to take written bytes at any point of any call, the call that needed the missing bytes returns an error whose innermost error is database/sql/driver.ErrBadConn, never a success and never a silently shortened result. From the first such error on, every further call on that connection that would need the server fails as well, even if late bytes still arrive.",
 ["fault_sequences", "crash_points", "schedules", "histories"],
 "every byte position in either direction at which the transport can fail, every fault kind (EOF, reset, stall, late delivery, partial or blocked write), every call sequence",
 TEST_REACH + "No test injects a transport fault.",
 ["conn.go", "encoding/decoder.go", "encoding/encoder.go"],
 [("I/O errors recorded and mapped to ErrBadConn", "conn.go Read/Write"), ("short reads completed or reported", "encoding/decoder.go read/readData")],
 ["errors and values returned by API calls after a fault"],
 [("connErr", "the connection is known broken", "conn.go boltConn.connErr")])

prop("C04", "No call waits longer than the configured timeout",
 "Opening a connection and every call on one returns: when the server stops sending, or stops taking bytes, the call returns an error no later than one configured timeout (URL parameter, or the value last set on the connection) after the last byte moved, and not before the timeout has passed (over TLS, releasing a connection whose peer does not take bytes may add the five seconds crypto/tls itself allows for its close notification). When the server answers everything it was asked, no call waits for a further answer, so none ever runs into the timeout.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "every point at which the server may fall silent or stop reading, every timeout setting, every call sequence with a healthy server",
 TEST_REACH + "Time does not exist in a replay: deadlines are ignored by the recorder.",
 ["conn.go", "rows.go", "stmt.go", "tx.go", "driver.go"],
 [("deadline set before every read and write", "conn.go Read/Write"), ("dial timeout", "conn.go createConn"),
  ("exactly as many answers awaited as requests sent", "conn.go consume*, rows.go Close")],
 ["simulated time at call return versus last byte moved"])

prop("C05", "The server receives exactly the caller's statements and parameters",
 "For every statement execution the caller requests, the server receives exactly one request carrying the same query text and equal parameter values (of every supported type, size and nesting), in the order issued, with result requests matched to it, correctly framed for every chunk size setting and encoded message size, and never a message that is illegal in the protocol state. Parameters that cannot be represented produce an error at that call, nothing of that call reaches the server, and the connection stays usable.",
 ["inputs", "histories", "configurations"],
 "all call sequences, all parameter values (integer and length boundaries, nesting, large messages), all chunk sizes 1..65535, all segmentations of the client's bytes",
 TEST_REACH + "The replay compares byte counts only, never content, and the encoder tests cover single values without the connection.",
 ["encoding/encoder.go", "conn.go", "stmt.go", "structures/messages/run.go"],
 [("PackStream encoding and chunking", "encoding/encoder.go"), ("RUN followed by PULL_ALL/DISCARD_ALL", "conn.go send*")],
 ["messages decoded by the simulated server with an independent codec"])

prop("C06", "Values sent by the server arrive intact",
 "Every value the server sends in records and metadata (null, booleans, integers and floats of every width, strings, lists, maps, nodes, relationships, paths, at every legal size, nesting and legal encoding width) is returned to the caller as an equal Go value, regardless of how the server cuts messages into chunks and how the network cuts chunks into reads.",
 ["inputs", "schedules", "configurations"],
 "all values and legal wire encodings, all chunkings including 1-byte chunks and messages over 64 KiB, all read segmentations",
 TEST_REACH + "Decoder tests round-trip through the driver's own encoder, so symmetric mistakes cancel, and never split the stream.",
 ["encoding/decoder.go", "encoding/util.go", "structures/graph/node.go", "structures/graph/relationship.go", "structures/graph/path.go", "rows.go"],
 [("chunk reassembly", "encoding/decoder.go read/readData"), ("value decoding", "encoding/decoder.go decode*")],
 ["values returned by rows and metadata"])

prop("C07", "Malformed server data yields an error, never a crash",
 "Whatever bytes the server or network delivers (corrupted, truncated, mistyped, absurd sizes, deep nesting, unexpected messages), every call returns within its time bound with an error or with well-formed data: it never panics, never terminates the process, never loops forever and never allocates memory out of proportion to the bytes received. Once a message could not be decoded, the connection is treated as broken and yields no further results.",
 ["inputs", "fault_sequences", "histories"],
 "all byte corruptions at any position of the server's stream and all hostile message structures, in any session state",
 TEST_REACH + "Nothing malformed is ever fed to the decoder.",
 ["encoding/decoder.go", "encoding/util.go", "conn.go", "result.go", "rows.go"],
 [("checked sizes and type assertions", "encoding/decoder.go"), ("unexpected message handling", "conn.go, stmt.go, rows.go, tx.go")],
 ["panics, process death, steps and allocation per run, returned errors"])

prop("C08", "A pooled connection has one user at a time, within the limit",
 "At every instant each network connection of a pool is used by at most one borrower that has not returned it, even if a borrower closes its connection twice or keeps using it after returning it. The pool never has more network connections open than its configured maximum.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of concurrent borrowers, returns, double returns, uses after return and connection failures",
 "All pool tests are skipped without a live server; none controls the interleaving.",
 ["driver.go", "conn.go"],
 [("bounded channel of connections", "driver.go boltDriverPool.pool"), ("handle swapped on return", "driver.go reclaim, conn.go Close")],
 ["server-side owner of each simulated socket", "count of open simulated sockets"])

prop("C09", "A pooled connection carries nothing over to its next user",
 "A connection taken from a pool behaves like a freshly opened one whatever its previous user did before returning it: no transaction of a previous user is still open, no unread rows or answers of a previous user are delivered, no failure state persists, and a connection that is known to be broken or was never accepted by the server is not handed out again.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of the previous user (open transaction, unread rows, failed statement, broken connection, failed opening) at the moment of return",
 "All pool tests are skipped without a live server and return only clean connections.",
 ["driver.go", "conn.go", "stmt.go", "rows.go", "tx.go"],
 [("statement closed and transaction rolled back on Close", "conn.go Close"), ("bad connections replaced", "driver.go reclaim")],
 ["server-side session state when a new borrower's first request arrives", "results of the new borrower"])

prop("C10", "The pool keeps its full capacity and never deadlocks",
 "A pool never loses capacity: whatever mixture of successful use, server failures, broken connections, failed dials or handshakes and failed closes happened, once the faults stop and borrowers have returned what they hold, as many borrowers as the configured maximum can hold working connections at the same time. A borrower waiting for a connection gets one as soon as another is returned, and no sequence of open and close calls leaves a borrower blocked while a connection is free; each stale connection costs at most one failed use. A connection that is healthy when it is returned is used again: as long as nothing fails, a pool never dials more often than its maximum.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings and fault sequences of concurrent borrowers followed by a fault-free period",
 "All pool tests are skipped without a live server and inject no failure.",
 ["driver.go", "conn.go"],
 [("slot returned on every path", "driver.go reclaim, conn.go Close/initialize"), ("blocking receive from the pool", "driver.go OpenPool")],
 ["simulated borrowers' progress, scheduler deadlock detection"])

prop("C11", "Closing a pool stops and releases everything",
 "After closing a pool, no further connection is handed out, borrowers waiting for a connection are released with an error, and once the calls that were in progress have returned, every network connection the pool ever opened is closed, including those still held by borrowers and even if closing one of them fails. Closing never blocks forever, may be called more than once and concurrently with borrowing, returning and using connections, and never disturbs results already delivered.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of pool close with opens, returns, uses and failures",
 "The only pool close test is skipped without a live server and has one idle borrower.",
 ["driver.go", "conn.go"],
 [("closed flag and connection references under the lock", "driver.go Close/OpenPool")],
 ["open simulated sockets after close, blocked tasks, errors from OpenPool"])

prop("C12", "Transactions are all-or-nothing",
 "If Commit returns nil, every statement of the transaction that reported success is durably applied exactly once; if Rollback returns nil, or the connection is closed or lost before a commit was requested, or Commit reports a server failure, none of them is. When Commit reports a broken connection the outcome may be either, but never a part. A transaction is over after Commit or Rollback was answered, later statements are outside it, and a second transaction cannot be opened while one is open.",
 ["histories", "crash_points", "fault_sequences"],
 "all statement sequences with begin, commit, rollback, close and server failures, with the connection failing at any byte",
 TEST_REACH + "Commit is never interrupted and the database state is not observed after a fault.",
 ["tx.go", "conn.go"],
 [("BEGIN/COMMIT/ROLLBACK statements", "conn.go Begin, tx.go"), ("rollback when the connection is closed", "conn.go Close")],
 ["committed state of the simulated database versus what the client was told"],
 [("transaction", "the open transaction of the connection", "conn.go boltConn.transaction")])

prop("C13", "Closed connections and failed opens release the socket",
 "Every network connection opened by a call that returns an error, and every connection on which the user calls Close (outside a pool), is closed when that call returns, whatever state the session is in: rows unread, transaction open, statement failed, transport already broken, or an error met while closing. Closing twice is harmless.",
 ["histories", "fault_sequences", "crash_points"],
 "all session states at close, all fault points during dialing, negotiation, authentication and close",
 TEST_REACH + "Socket release is not observed and faults during close do not occur.",
 ["conn.go", "driver.go"],
 [("Close", "conn.go Close"), ("Close on failed initialize", "conn.go initialize")],
 ["open simulated sockets when the call returns"])

prop("C14", "Connections are handed out only after a successful handshake",
 "A connection is returned to the caller only if the server selected protocol version 1 and accepted the INIT message, which carries the driver's client name and exactly the configured credentials (or none); otherwise the open call returns an error, and a server rejection is reported with the server's failure message. This holds for direct, database/sql and pooled connections, under any splitting of the handshake bytes and any fault or rejection during it.",
 ["fault_sequences", "inputs", "configurations"],
 "all server version answers, INIT answers, segmentations and faults during connection setup",
 TEST_REACH + "All recordings contain one accepted handshake delivered whole.",
 ["conn.go", "driver.go", "structures/messages/init.go"],
 [("version negotiation", "conn.go handShake"), ("INIT", "conn.go sendInit/initialize")],
 ["return value of OpenNeo/Open/OpenPool versus the simulated server's session state"])

prop("C15", "The driver behaves correctly under database/sql",
 "Used through the standard database/sql package, statements reach the server once, with the parameters marshalled by the user, and results, errors and transactions correspond to the right call; values of list, map and graph types unmarshal to the value the server sent. A connection that broke is discarded and never reused for a later call, a statement is never silently executed twice, and server failures do not poison the pool of database/sql. Healthy connections are kept: no call opens a new one while one is free.",
 ["histories", "fault_sequences", "inputs"],
 "all sequential histories of database/sql calls, with server failures and transport faults at any byte",
 "The only database/sql test is skipped without a live server.",
 ["conn.go", "stmt.go", "rows.go", "driver.go", "util.go", "tx.go"],
 [("sql/driver interfaces", "conn.go Query/Exec/Begin, stmt.go Query/Exec, rows.go Next"), ("parameter unmarshalling", "util.go driverArgsToMap")],
 ["values and errors seen through database/sql, requests seen by the simulated server"])

prop("C16", "TLS connections verify the server before sending anything",
 "With TLS enabled and verification on, no protocol bytes or credentials leave the client unless the server presented a certificate valid for the host under the configured or system roots; a server that fails verification yields an error, and so does a CA or client certificate file that cannot be used. With TLS enabled nothing is ever sent in clear text, results are as correct as without TLS, and connection setup is bounded by the configured timeout.",
 ["fault_sequences", "configurations", "inputs"],
 "all certificate situations (good, wrong CA, wrong host, expired, verification disabled), all segmentations and faults during the TLS handshake and session",
 "No test uses TLS.",
 ["conn.go"],
 [("tls.Config construction", "conn.go tlsConfig"), ("TLS dial", "conn.go createConn")],
 ["bytes on the simulated wire, plaintext seen by the simulated TLS server, time of return"])

prop("C17", "Connections of one driver do not influence each other",
 "Several goroutines that each use their own connection, opened through one shared driver object, obtain exactly the results, errors and timeouts each would have obtained alone, under every interleaving of their calls and with faults or failures confined to one connection. Whatever they share (the driver object, package-level state, a pool) is safe for concurrent use: it is never accessed by two goroutines without synchronisation.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of several clients with separate connections, with faults confined to one of them",
 "Tests use one connection at a time.",
 ["driver.go", "conn.go", "encoding/encoder.go", "encoding/decoder.go", "log/log.go"],
 [("no shared mutable state between connections", "driver.go boltDriver, encoding")],
 ["results, server histories and timing of every client", "accesses to shared memory, ordered only by the driver's own synchronisation"])

prop("C18", "Connections use what their URL says, and nothing else",
 "Every connection, whether direct, through database/sql or from a pool, follows its URL: the address dialled is the URL's host and port, INIT carries the URL's user and password (percent-decoded, whatever characters they contain) or none, every wait for the network (dialing, TLS handshake, reading, writing) lasts until the URL's timeout (60 s if none is given) but no longer, and TLS, its verification, the CA file and the client certificate are used exactly as the TLS options say. A URL that is invalid (not parsable, another scheme, a user without a password, a timeout that is not an integer) is an error at every open, with nothing dialled; certificate files that cannot be used for what was asked are an error too, never a weaker connection. A pool with such a URL fails every time and never blocks.",
 ["inputs", "configurations", "fault_sequences", "histories"],
 "all URLs (credentials with any characters, spellings of options, timeouts, TLS files), all opens direct, pooled and through database/sql, stalls at any byte",
 TEST_REACH + "The URL is used for nothing then: there is no address, no time and no TLS.",
 ["conn.go", "driver.go"],
 [("URL options", "conn.go parseURL"), ("dialing and TLS configuration", "conn.go createConn/tlsConfig"), ("URL of a pooled connection", "driver.go reclaim")],
 ["address and time of simulated dials, INIT seen by the server, time at which waits end, TLS handshakes seen by the server"])

prop("N02", "Errors describe their context and log output honours the level",
 "The text of a wrapped error names its context, its cause and where it came from, and log output is written exactly for the levels that are enabled.",
 ["inputs"], "all error chains, all levels",
 "Pure functions of their input.",
 ["errors/errors.go", "log/log.go"], [("Wrap, Error", "errors/errors.go"), ("levels", "log/log.go")], ["error texts, log lines"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
