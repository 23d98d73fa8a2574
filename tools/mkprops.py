#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

ENC=["encoding/encoding_v1/encoderV1.go","encoding/encoding_v2/encoderV2.go"]
DEC=["encoding/encoding_v1/decoderV1.go","encoding/encoding_v2/decoderV2.go"]
CON=["connection/connection.go"]

p("C01","Query parameters reach the server unchanged",
 "For every protocol version and every query text and parameter map built from the supported Go types, nested arbitrarily, the server decodes exactly the text and values the caller passed. A value that cannot be represented is refused with an error, nothing of that request reaches the server and the connection stays usable. The caller's values are never modified.",
 ["inputs","configurations"],"all parameter values (integers of every Go type and width boundary, floats, strings/lists/maps across every length-class boundary, typed slices, graph structures, nesting), protocol versions 1-4",
 "The encoder tests compare scalars, short strings and short slices against a copy of the same encoding rules; maps, structures, nested values, length-class boundaries, multi-chunk messages and refusal of unsupported values are never executed.",
 ENC+CON+["structures/messages/run.go","structures/messages/run_with_metadata.go","structures/graph"],
 [("type switch and size-class selection of the encoders","encoding/encoding_v*/encoderV*.go encode*"),("query submission","connection/connection.go runQuery/sendMessage")],
 ["bytes received by an independent strict Bolt server","error returned to the caller","parameter map after the call"])
p("C02","Result values are delivered exactly as the server sent them",
 "For every well-formed response, in any legal PackStream width and for any sizes and nesting, a query returns exactly the rows the server streamed, in order, with every integer, float, string, boolean, null, list, map, node, relationship and path equal to what was sent, and the summary metadata intact. Results already returned are never altered by later use of the connection.",
 ["inputs"],"all well-formed record streams: every marker/width class (including sizes with the high bit set), nesting, row counts, protocol versions 1-4",
 "No existing test decodes anything (TestDecoder_read is empty); integration tests need a live server.",
 DEC+["encoding/util.go","connection/connection.go","connection/result.go","structures/graph"],
 [("marker dispatch and size decoding","encoding/encoding_v*/decoderV*.go decode"),("row collection","connection/connection.go runQuery")],
 ["rows and summary returned by Query/Exec compared with the values an independent server encoded"])
p("C03","Temporal and spatial values survive both directions",
 "On protocol versions 2 to 4, dates, times, local times, local date-times, zoned and offset date-times, durations and 2D/3D points sent as parameters arrive at the server denoting the same value, and those sent by the server are returned denoting the same value (same instant or wall-clock fields, same UTC offset, same duration, same coordinates). Any such value returned by a query can be sent back as a parameter and denotes the same value.",
 ["inputs","configurations"],"all representable temporal/spatial values incl. negative epochs, far past/future, sub-second parts, zone offsets, DST transitions; protocol versions 2-4",
 "TestEncodeTime/TestEncodeDuration are skipped stubs and the temporal integration tests need a live server and use one sample each.",
 ["encoding/encoding_v2/encoderV2.go","encoding/encoding_v2/decoderV2.go","structures/types/point.go"],
 [("temporal encoders","encoding/encoding_v2/encoderV2.go encodeDate..encodeDuration"),("temporal/spatial decoders","encoding/encoding_v2/decoderV2.go decodeDate..decodePoint3D")],
 ["PackStream structures received by the server","Go values returned to the caller"])
p("C04","Message framing is valid for every message length and chunk size",
 "Every request is sent as a sequence of non-empty chunks none longer than the connection's configured chunk size, ended by exactly one zero-length chunk, with nothing before, between or after, whatever the message length. Responses are understood identically however the server splits them into chunks and however the network splits the bytes.",
 ["inputs","configurations","schedules"],"all message lengths (incl. multiples of and around the chunk size and 65535), all chunk sizes 1..65535, all chunkings and TCP segmentations of responses and of the handshake reply",
 "Encoder tests use one chunk size (65535) and messages of a few bytes; no test reads a response.",
 ENC+DEC+CON,[("chunking writer and flush","encoding/encoding_v*/encoderV*.go Write/flush"),("chunk reader","encoding/encoding_v*/decoderV*.go read/readData"),("handshake read","connection/connection.go handshake")],
 ["raw chunk sequence seen by the server","results returned under varied chunkings/segmentations"])
p("C05","Malformed server bytes give an error, never a crash or wrong success",
 "Whatever bytes a server sends as a response - truncated, mutated, wrongly typed, with impossible sizes or deeply nested - the operation returns an error or a value that the bytes really encode; it never panics, never kills the process, and never allocates memory out of proportion to the bytes received.",
 ["inputs","fault_sequences"],"all byte strings as server responses (mutations of valid responses, every truncation point, random structures with wrong arity or field types, oversized length prefixes, deep nesting), protocol versions 1-4",
 "No test decodes hostile input; decoding is entirely unexecuted by the suite.",
 DEC+["encoding/util.go"],[("size and type validation in decoders","encoding/encoding_v*/decoderV*.go")],
 ["panic/fatal termination of the client process","returned value vs. an independent strict decoder","bytes allocated during decode"])
p("C06","Every reply is paired with the request that caused it",
 "On one connection, each successful query returns only the rows and summary the server produced for that very query, no matter which earlier operations failed, were refused, timed out, returned undecodable values or were answered out of protocol. Replies left over from one operation are never delivered to another; if the connection cannot be resynchronised it refuses further use.",
 ["histories","fault_sequences"],"all histories of queries, failures, refused parameters, undecodable rows, unexpected replies, timeouts with late replies, and transactions on one connection, protocol versions 1-4",
 "Integration tests (not runnable here) only use successful or syntactically wrong queries; mixed histories with leftovers are never produced.",
 CON+["connection/transaction.go"],[("request/response pairing","connection/connection.go runQuery/consume/reset"),("response consumption of transaction control","connection/transaction.go")],
 ["unique query tags echoed in every row and summary"])
p("C07","Server failures are reported faithfully and the connection recovers",
 "When the server answers any request (query, begin, commit, rollback, authentication) with a failure, the caller gets an error whose innermost cause carries exactly the server's code, message and metadata, whatever text they contain, and no rows. The failure is acknowledged so that the next valid operation on the same connection succeeds, and a session the server refuses to reset becomes unusable instead of returning wrong results.",
 ["histories","fault_sequences","inputs"],"failure at every message position of every scripted session, any code/message/metadata text, failures during recovery, protocol versions 1-4",
 "No runnable test receives a failure; the live test only checks that an error is non-nil.",
 CON+["connection/transaction.go","errors/errors.go","structures/messages/responses.go"],[("failure handling and reset","connection/connection.go consume/reset"),("error wrapping","errors/errors.go Wrap/InnerMost")],
 ["error chain returned to the caller","RESET messages and subsequent traffic seen by the server"])
p("C08","Loss of the connection is always an error, never a partial success",
 "If the server goes away at any byte of any exchange, the operation in progress returns an error whose innermost cause is the standard bad-connection error, and never returns rows or success it did not fully receive. From then on the connection reports itself not open, every further operation fails promptly without blocking, and closing it releases the socket.",
 ["crash_points","fault_sequences"],"server disappearance (orderly close or reset) after every byte of the response stream and after every request byte count, for query, begin, statement-in-transaction, commit, rollback; protocol versions 1-4",
 "No test injects a connection fault.",
 CON+["connection/transaction.go"]+DEC,[("I/O error mapping","connection/connection.go readWrite.Read/Write"),("liveness probe","connection/connection.go ValidateOpen")],
 ["operation result for each cut point","ValidateOpen, follow-up operations and socket state seen by the server"])
p("C09","A transaction's statements run inside that transaction and nowhere else",
 "Every statement issued through a transaction handle is executed by the server inside the transaction that handle began, or is refused with an error without the server executing it. In particular, after commit, rollback, a failed statement or loss of the transaction, nothing issued through the handle is ever executed as an auto-committed statement or inside another transaction.",
 ["histories","fault_sequences"],"all histories of begin/exec/query/commit/rollback/close/reuse with failures injected at any statement, several transactions in sequence on one connection, protocol versions 1-4",
 "The only transaction test needs a live server and runs one successful commit and one rollback.",
 ["connection/transaction.go","connection/connection.go"],[("transaction handle state","connection/transaction.go boltTransaction.closed"),("begin bookkeeping","connection/connection.go BeginWithDatabase")],
 ["server-side log of statements with the transaction each one ran in, against the client-side handle that issued it"])
p("C10","Commit and rollback tell the truth and end the transaction",
 "Commit returns success if and only if the server acknowledged that commit, rollback likewise; a transaction is never reported committed when it was not, nor committed when the caller rolled back or merely closed or returned the connection. Once ended for whatever reason its handle reports closed, a second commit or rollback is refused without reaching the server, and a new transaction can be begun; while one is open a second cannot be begun.",
 ["histories","fault_sequences"],"all histories of begin/statement/commit/rollback/close with failures or connection loss at each step, protocol versions 1-4",
 "No runnable test executes transaction code.",
 ["connection/transaction.go","connection/connection.go"],[("commit/rollback","connection/transaction.go Commit/Rollback"),("close and idle handling","connection/connection.go Close/MakeIdle")],
 ["server-side transaction outcomes versus results returned to the caller"])
p("C11","Version negotiation speaks only the agreed protocol version",
 "The driver opens with the Bolt preamble offering versions 4, 3, 2, 1 in that order and then uses only the message set of the version the server selects, reporting that version. A refusal, an unknown version or any other answer makes opening fail with an error without any credential being sent.",
 ["inputs","configurations"],"every 4-byte server answer class (each supported version, none, unoffered versions, HTTP text, short answers, close), any segmentation",
 "TestGetProtocol only checks the lookup table on 7 inputs; the handshake is never executed.",
 ["connection/connection.go","connection/const.go","protocol/util.go","protocol/protocol_v1","protocol/protocol_v2","protocol/protocol_v3","protocol/protocol_v4"],[("handshake","connection/connection.go handshake/initialize"),("version lookup","protocol/util.go GetProtocol")],
 ["first 20 bytes and first message received by the server","error and version returned"])
p("C12","Every request is legal for the negotiated version and server state",
 "Throughout any history of API calls, each message the driver sends is one the Bolt specification of the negotiated version allows in the server's current state, with the fields that version requires. A database name is sent to a version 4 server exactly as given and rejected with an error, before anything is sent, on older versions; work opened for writing is never marked read-only and the message builders mark exactly read work as read.",
 ["histories","configurations"],"all API call histories including failures, resets and closes; protocol versions 1-4; database names; access modes",
 "No runnable test produces a message other than through the bare encoder.",
 ["protocol/protocol_v1/bolt.go","protocol/protocol_v2/bolt.go","protocol/protocol_v3/bolt.go","protocol/protocol_v4/bolt.go","structures/messages","connection/connection.go","connection/transaction.go"],[("per-version message builders","protocol/protocol_v*/bolt.go"),("transaction metadata","structures/messages/builder.go")],
 ["online protocol state-machine monitor in the server"])
p("C13","Closing a connection always releases it",
 "Close releases the network connection whatever state it is in - idle, transaction open, last operation failed, server gone - and leaves no transaction uncommitted-but-open on the server. After Close the connection reports itself not open, a second Close reports it is already closed, and every operation returns an error without sending anything or blocking.",
 ["histories","fault_sequences","crash_points"],"close in every connection state and with the server failing, refusing or vanishing at each step of the closing exchange; protocol versions 1-4",
 "No runnable test opens or closes a connection.",
 ["connection/connection.go","connection/transaction.go"],[("close","connection/connection.go Close"),("rollback on close","connection/transaction.go Rollback")],
 ["server-side end of the TCP connection","results of operations after Close"])
p("C14","Failed connection attempts return an error and leave nothing behind",
 "If opening a connection fails at any step - dialling, TLS, handshake, authentication, or an answer out of protocol - the caller gets an error and no connection, and the socket is closed. An open that reports success always yields a connection the server has authenticated.",
 ["fault_sequences","crash_points","inputs"],"failure, disappearance or nonsense at every byte/message of connection set-up, protocol versions 1-4, with and without TLS, direct and pooled",
 "No runnable test connects.",
 ["connection/connection.go","connection_pool_factory.go"],[("connection set-up","connection/connection.go initialize/sendInit")],
 ["error/connection returned","server-side end of the TCP connection, number of open sockets"])
p("C15","A stalled server cannot block an operation beyond the configured timeout",
 "When the server stops responding or stops reading at any point of connection set-up, a query or a transaction step, the operation returns an error once the configured timeout has elapsed instead of waiting for the server. The timeout given in the connection string, by client option or on the connection is the one that is applied, and a late answer never turns into a result.",
 ["fault_sequences","configurations"],"stall at every message/byte class of set-up (incl. TLS handshake) and of operations; all ways to configure the timeout",
 "No runnable test performs network I/O; TestWithTimeout is empty.",
 ["connection/connection.go","client.go","opt.go"],[("deadlines","connection/connection.go readWrite.Read/Write, createConnection"),("timeout configuration","connection/connection.go newConnectionFromConnectionString, opt.go WithTimeout")],
 ["whether the operation ended with an error before the server released its held-back answer"])
p("C16","A connection shared by goroutines stays consistent and race-free",
 "When several goroutines use one connection at the same time - queries, statements, transaction control, liveness checks, close - every call returns its own result or an error, the requests and replies of different calls never interleave on the wire, and no data race or crash occurs.",
 ["schedules"],"all interleavings of concurrent operations on one connection, protocol versions 1-4",
 "No test runs two goroutines on a connection; TestStress is skipped and needs a server.",
 ["connection/connection.go","connection/transaction.go"],[("connection mutex","connection/connection.go Connection.mutex")],
 ["Go race detector","server state-machine monitor","unique tags echoed in results"])
p("C17","The pool never shares a connection and never exceeds its size",
 "Under any concurrent use, a pooled connection is lent to at most one borrower at a time, at most the configured number of connections is open at once, and a caller waiting for a connection gets one as soon as one is returned or discarded. Returning connections - healthy, closed by the user, broken by the server, twice, or never lent - never loses capacity nor corrupts the pool, and no data race occurs.",
 ["schedules","histories","fault_sequences"],"all interleavings of Open/Reclaim/use/close by concurrent borrowers, pool sizes from 1, server-side disconnects",
 "TestStress is skipped; driver_pool_test.go is empty.",
 ["driver_pool.go","connection_pool_factory.go","client.go"],[("borrow/return","driver_pool.go open/reclaim"),("object factory","connection_pool_factory.go")],
 ["online ownership monitor at the API boundary","server-side count of simultaneously open connections","Go race detector"])
p("C18","A borrowed connection is live and carries nothing over",
 "A connection obtained from a pool is open, belongs to no transaction and works, even if previous borrowers abandoned a transaction on it, closed it, broke it, or the server dropped it while idle. An abandoned transaction is rolled back by the time its connection is lent again, and dead idle connections are replaced without the borrower noticing.",
 ["histories","fault_sequences"],"all histories of borrow/misuse/return/server-drop/borrow, pool sizes from 1, protocol versions 1-4",
 "The recycle integration tests need a live server and cover two fixed misuse patterns.",
 ["connection_pool_factory.go","driver_pool.go","connection/connection.go"],[("validate/activate/passivate","connection_pool_factory.go"),("liveness probe","connection/connection.go ValidateOpen")],
 ["first operation of each borrow and the server's transaction state for that connection"])
p("C19","Shutting down a pool releases everything and unblocks everyone",
 "Closing a pool closes all its idle connections, makes blocked and future Open calls return an error, and connections still lent are closed when they are returned. Closing never blocks on borrowers, is safe under concurrency, and a second close reports an error.",
 ["schedules","histories"],"close at every point of concurrent borrow/return histories, with exhausted pools and waiting borrowers",
 "No runnable test creates a pool.",
 ["driver_pool.go"],[("close","driver_pool.go close/open")],
 ["return of every blocked call","server-side count of open connections after close","Go race detector"])
p("C20","Cluster reads and writes go to the right members",
 "In a routed cluster, a connection opened for writing is to a member that the most recent cluster overview reports as leader and one opened for reading is to a follower or read replica, with work spread over all eligible members. After the cluster's topology changes, members no longer eligible stop being handed out once the next refresh has completed, and newly eligible ones come into use, without the pool failing or losing capacity.",
 ["histories","configurations"],"all topologies (leaders/followers/replicas, overview formats of versions 3 and 4) and all histories of topology changes, refreshes, borrows and returns",
 "Routing is exercised only by live-cluster integration tests with a fixed topology.",
 ["routing/pool.go","routing/routing_handler.go","driver_routing_pool.go"],[("refresh/mark/prune/balance","routing/pool.go refreshConnections/prune/balance"),("role classification","routing/routing_handler.go")],
 ["member that received the connection versus the role it had in the overview last served"])
p("C21","The routing pool is exclusive, crash-free and keeps its capacity",
 "Under concurrent borrowing, returning and refreshing, no routed connection is lent to two borrowers at once, every operation returns a usable connection or an error, idle connections dropped by a member are replaced, and the number of connections per access mode neither grows beyond nor shrinks below its configured share. No schedule causes a data race, a panic or a process crash.",
 ["schedules","fault_sequences","histories"],"all interleavings of borrows (read and write), returns (healthy, closed, foreign, repeated) and refreshes, with members dropping connections",
 "No runnable test creates a routing pool.",
 ["routing/pool.go","routing/queue.go","routing/util.go"],[("borrow/return bookkeeping","routing/pool.go internalBorrow/Reclaim"),("pool lock","routing/pool.go routingPool.mutex")],
 ["online ownership monitor at the API boundary","per-member open connection counts","Go race detector","process exit"])
p("C22","Stopping the routing pool stops everything it started",
 "Stopping a routing pool closes every idle connection on every member, ends its background refreshing, and makes later borrows fail; connections still lent are closed when returned. A pool that fails to start leaves no connection, background activity or running state behind.",
 ["histories","schedules","fault_sequences"],"stop at any point of borrow/refresh/return histories; start failures at each step",
 "No runnable test creates a routing pool.",
 ["routing/pool.go","driver_routing_pool.go"],[("start/stop","routing/pool.go Start/Stop/refreshHandler")],
 ["per-member open connection counts and traffic after stop","Go race detector"])
p("C23","A bad cluster overview never corrupts routing",
 "The routing table is derived from the overview rows exactly: each member's role and its Bolt address (never another advertised address), for both overview formats. A failed, malformed or incomplete refresh leaves the previously known members in service, and never crashes the process.",
 ["inputs","fault_sequences"],"all overview row contents (role spellings, address lists in any order and any host names, missing/ill-typed columns, unknown roles, failures, disconnects), both formats",
 "The overview parser is not executed by any runnable test.",
 ["routing/routing_handler.go","routing/pool.go"],[("overview parsing","routing/routing_handler.go refreshClusterInfo/parseRowV3/parseRowV4")],
 ["addresses dialled by the pool after each overview served"])
p("C24","Credentials and address reach the server exactly as configured",
 "Whatever characters the user name, password or host contain, and whether given as options or in a (percent-encoded) connection string, every connection the client opens - direct, pooled or to a routed cluster member - goes to the configured host and port and authenticates with exactly that user name and password. Nothing in them can change any other connection setting.",
 ["inputs","configurations"],"all user names and passwords (incl. URL metacharacters, percent signs, unicode, empty password), IPv4/IPv6/host names, all ways of configuring, all driver kinds",
 "TestWithBasicAuth/TestWithHostPort/TestWithConnectionString are empty; the live tests use neo4j/changeme.",
 ["client.go","opt.go","connection/connection.go","driver_routing_pool.go","routing/pool.go","structures/messages/init.go"],[("connection string assembly and parsing","client.go NewClient, connection/connection.go newConnectionFromConnectionString"),("member address assembly","routing/pool.go addAuthInfoToConnStr")],
 ["INIT/HELLO authentication token and listener that received it"])
p("C25","Requested TLS is always used and the server is verified",
 "When TLS is requested by option or connection string, every connection of the client - direct, pooled, seed and cluster members - is TLS and no byte of the Bolt conversation is ever sent in clear. The server certificate is verified against the configured authority and host name unless verification was explicitly disabled, a configured client certificate is presented, and any TLS or certificate-file problem makes opening fail.",
 ["configurations","inputs","fault_sequences"],"all combinations of TLS options/URL parameters, certificates (trusted, untrusted, wrong host, expired), driver kinds, plaintext servers",
 "TestWithTLS is empty.",
 ["client.go","opt.go","connection/connection.go","driver_routing_pool.go","routing/pool.go"],[("TLS configuration","connection/connection.go tlsConfig/createConnection"),("TLS propagation","client.go NewClient/getTlsPortion")],
 ["first bytes received by a raw listener","TLS handshakes and client certificates seen by TLS servers","result of opening"])
p("C26","Client options are validated and take effect",
 "Contradictory, missing or out-of-range configuration is rejected with an error when the client is created; accepted configuration is honoured by every connection the client opens, in whatever order the options were given. Connection strings are parsed identically by the client and by its connections, and routing is enabled exactly when asked for.",
 ["inputs","configurations"],"all combinations and orders of client options and connection-string forms",
 "All nine option tests have empty bodies.",
 ["client.go","opt.go","connection/connection.go"],[("option validation","opt.go"),("connection string parsing","client.go NewClient")],
 ["errors from client creation","behaviour of connections opened by the client"])
p("C27","Result statistics are exactly those of the server",
 "For every summary the server may send, the statistics accessors return exactly the counter the server reported and report a counter that is absent or not a number as unavailable; they never crash, and the raw metadata is returned unmodified.",
 ["inputs"],"all summary metadata shapes: any subset of counters, missing or ill-typed statistics, extreme values",
 "The accessors are executed only by live tests on summaries that contain the requested counter.",
 ["connection/result.go","connection/connection.go"],[("accessors","connection/result.go")],
 ["accessor results versus the summary the server sent"])
p("C28","The library is silent unless logging is enabled",
 "With logging off, no operation - success, failure or fault - writes anything to the process's standard output or standard error; each level enables exactly the messages of that level and below, to the configured logger. Passwords are never written below byte-trace level.",
 ["inputs","configurations","histories"],"all operations and value types, all log levels, with failures and faults",
 "Tests never look at the process's output.",
 ["log/log.go","connection/connection.go","encoding/encoding_v2/decoderV2.go","routing/pool.go"],[("level gate","log/log.go")],
 ["bytes written to stdout/stderr and to replaced loggers"])
p("C29","Error values keep their cause and their text",
 "For any chain of errors the library builds, the innermost cause is the original error object, each wrapping step is retrievable, and the rendered text contains every layer's message exactly as formatted, including text with formatting characters that came from the server or the operating system.",
 ["inputs"],"all error texts and wrapping depths, including server-supplied texts with % and newlines",
 "errors package has no tests.",
 ["errors/errors.go","connection/connection.go"],[("wrapping","errors/errors.go New/Wrap/Inner/InnerMost/Error")],
 ["error objects and texts"])
p("C30","Pools keep healthy connections for reuse and never disturb lent ones",
 "A connection returned to a pool in working order, whatever failed statements, changed settings or unfinished transaction its borrower left on it, is kept and lent again: as long as no connection breaks, a driver pool opens no more connections in its life than its size, and a routing pool whose cluster does not change opens exactly its size. While a connection is lent, nothing else closes, resets or exchanges it: neither other borrowers, stale, foreign or repeated returns, lost idle connections, slow handshakes, refreshes, role changes and members leaving the overview, nor closing or stopping the pool. Until it is returned it keeps answering on the same server connection, and a transaction on it can be finished with all of its statements.",
 ["histories","schedules","fault_sequences"],"all histories of borrowing, using and returning by one or several borrowers around a held connection, pool sizes from 1, both kinds of pools, protocol versions 1-4",
 "No test counts the connections a server sees, or holds one while the pool around it is refreshed, disturbed or closed.",
 ["driver_pool.go","connection_pool_factory.go","routing/pool.go","connection/connection.go"],[("keeping returned connections","connection_pool_factory.go PassivateObject, driver_pool.go reclaim"),("keeping lent connections over refreshes","routing/pool.go refreshConnections prune spread Stop Reclaim")],
 ["connections the servers accepted","answers on lent connections with the number of the server connection","the server's transaction book"])
p("C31","The codecs and messages of each version work on their own",
 "For every protocol version, whatever its codec marshals or encodes onto a writer is a well-framed message that an independent implementation and the codec itself decode to the same value; whatever a valid stream holds is decoded, message by message, from any reader that keeps to Go's reader contract, without taking a byte beyond the message. An error of the writer or reader comes out of the call with its cause, a value that can not be encoded leaves nothing on the writer, and neither spoils the next message. The request and response messages of every version, authentication tokens included, are encoded as that version defines them for all arguments. Codecs used at the same time do not affect each other.",
 ["inputs","fault_sequences","schedules"],"all supported values, chunk sizes and framings, all reader and writer behaviours and failure positions, all arguments of the message constructors",
 "Tests encode a few values into a buffer and compare bytes; no test decodes from an io.Reader, fails a writer or builds the messages of each version.",
 ["encoding/encoding_v1/encoderV1.go","encoding/encoding_v2/encoderV2.go","encoding/encoding_v1/decoderV1.go","encoding/encoding_v2/decoderV2.go","protocol/protocol_v4/bolt.go","structures/messages/builder.go"],[("framing and flushing","encoderV1.go encoderV2.go flush Encode"),("reading chunks","decoderV1.go decoderV2.go read readData"),("messages of a version","protocol/protocol_v*/bolt.go, structures/messages")],
 ["bytes given to writers and taken from readers","returned values and errors"])
p("C32","Connections, clients and pools of one process are independent of each other",
 "Any number of connections, drivers, pools and routing pools that work in one process at the same time, each for a server of its own, behave as each would alone: every one keeps its own credentials, protocol version, TLS authorities, chunk size and timeout, gets the results of its own statements and sends its own parameters, and one that is refused, stalled or fails leaves the others unaffected. No schedule of independent uses causes a data race or a crash.",
 ["inputs","schedules"],"all sets of differently configured users working concurrently on connections of their own",
 "Tests open one connection at a time and never compare two clients.",
 ["connection/connection.go","client.go","driver.go","driver_pool.go","routing/pool.go","encoding/encoding_v2/decoderV2.go","protocol/protocol_v4/bolt.go","log/log.go"],[("state of a connection","connection/connection.go Connection"),("state of a client","client.go Client"),("package-level state","any package-level variable")],
 ["rows, summaries, failures and timing seen by each user","credentials, parameters and chunks seen by each server","race reports"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P))
