#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Path arguments reach the handler exactly as given, or the call is refused",
 "For every entry point and every tuple of path arguments (strings of any Unicode text, booleans, integers and floats of every width), a call either gives the called procedure's handler exactly those values in the same positions, or fails on the client without any handler running. "
 "No argument is ever altered, dropped, merged, split or shifted to another position, whatever characters it contains (empty, '.', '..', '/', '%', spaces, control characters, non-ASCII). "
 "Ordinary arguments (non-empty text without control characters other than the two dot names, every boolean, every number) are never refused.",
 ["inputs", "configurations"], "all entry-point shapes x all argument types x all values of each type",
 "The unit tests serialize two ASCII paths and deserialize one; they never send a path through a client, a server and a router, and no finite sample covers every character and every numeric extreme.",
 ["src/serializers/url_path.rs", "src/deserializers/url_path.rs", "src/serializers/rpc_request.rs", "src/deserializers/rpc_request.rs", "src/router.rs"],
 [("path serializer binds each argument to the next variable segment and percent-encodes it", "src/serializers/url_path.rs"),
  ("path deserializer walks entry point and URL in step and percent-decodes variables", "src/deserializers/url_path.rs")],
 ["value received by the handler", "result of the client call"])

prop("C02", "Query arguments reach the handler exactly as given, or the call is refused",
 "For every set of query arguments (structures or string maps with strings of any Unicode text, booleans, integers and floats of every width, and optional values present or absent), a call gives the handler exactly the same names and values, with absent optionals still absent. "
 "This holds for requests with and without path arguments, and no value can leak into, hide or overwrite another parameter.",
 ["inputs", "configurations"], "all request types with a query x all values",
 "Two unit tests encode and decode one fixed ASCII query; separators, percent signs, plus signs, unicode, numeric extremes, absent optionals and requests without a path are not sampled.",
 ["src/serializers/url_query.rs", "src/deserializers/url_query.rs", "src/serializers/rpc_request.rs", "src/deserializers/rpc_request.rs"],
 [("form-urlencoded writer keyed by field name", "src/serializers/url_query.rs"), ("key/value cursor over decoded pairs", "src/deserializers/url_query.rs")],
 ["value received by the handler", "result of the client call"])

prop("C03", "Header fields cross intact in both directions and cannot inject anything",
 "Every header field of a request or response (strings, booleans, integers, floats, byte strings, constants, present or absent optionals) is received on the other side with the same name, compared case-insensitively, and the same value, or the message is refused by its sender with an error. "
 "No field name or value can add, remove or change another header, the status or request line, or the body of the message, or start a second message. Ordinary fields (token names, printable ASCII values without surrounding blanks) are never refused.",
 ["inputs", "configurations"], "all header structures x all values (including CR, LF, NUL, leading/trailing blanks, non-ASCII) x both directions",
 "Unit tests cover one fixed header structure with benign ASCII values and never put it on a wire.",
 ["src/serializers/http_header.rs", "src/deserializers/http_header.rs", "src/serializers/rpc_request.rs", "src/serializers/rpc_response.rs"],
 [("header serializer renders each field as one header line", "src/serializers/http_header.rs"), ("header deserializer lower-cases names and parses values", "src/deserializers/http_header.rs")],
 ["value received by handler / caller", "raw bytes on the wire"])

prop("C04", "Callers get exactly the status, headers and body the handler returned",
 "For every response a handler can return (any of the 57 known HTTP statuses, written as a structure with a status field or as an enum variant named after the status, with or without headers and body), the caller receives the same status or variant, the same headers and the same body, for every request method except that a HEAD call has an empty body. "
 "A status the response type cannot express or does not know is reported to the caller as an error, never as a different status.",
 ["inputs", "configurations"], "all statuses x all response shapes x all methods x plain and pooled clients",
 "Existing tests check the serializers of one or two statuses in isolation; the two hand-written status tables (name to code, code to name) are not compared.",
 ["src/serializers/rpc_response.rs", "src/deserializers/rpc_response.rs", "src/client.rs", "src/server.rs"],
 [("variant name to status table", "src/serializers/rpc_response.rs"), ("status to variant name table", "src/deserializers/rpc_response.rs")],
 ["response seen by the caller", "raw status line"])

prop("C05", "Bodies arrive byte for byte under any fragmentation and never truncated",
 "Request and response bodies of any length and content arrive unchanged, however the byte stream is split by the network or by partial reads and writes in either direction. "
 "If a stream ends or fails before the announced body length has arrived, neither side treats the partial body as complete: the handler is not run, respectively the call fails.",
 ["inputs", "schedules", "fault_sequences"], "all body contents and lengths x all segmentations and short reads/writes x all positions at which the stream can end",
 "No test moves a body over a connection; short reads, would-block results in the middle of a message and early end-of-stream cannot be produced by a unit test.",
 ["src/client.rs", "src/server.rs", "src/lib.rs", "src/serializers/rpc_request.rs", "src/serializers/rpc_response.rs"],
 [("Content-Length is always sent and honoured by both sides", "src/serializers/rpc_request.rs, src/serializers/rpc_response.rs, src/client.rs, src/server.rs")],
 ["body seen by handler", "body seen by caller"])

prop("C06", "A request runs the procedure its method and path select, or gets 404/405",
 "A request is dispatched to a procedure registered for its method whose entry point matches the path segment by segment (constants equal after percent-decoding, variables match any one segment), and where several match, the one with a constant at the first differing segment. "
 "If no entry point matches the path the answer is 404, and if entry points match but none for that method it is 405; in both cases no handler runs.",
 ["configurations", "inputs"], "all sets of registered entry points x all methods x all request paths",
 "The routing tests cover a handful of paths in one routing table; prefixes of entry points, overlapping constants and variables, and percent-encoded constants are not sampled.",
 ["src/router.rs", "src/server.rs", "src/misc.rs"],
 [("segment trie with constant-before-variable lookup", "src/router.rs")],
 ["which handler ran", "status of the response"])

prop("C07", "Malformed or hostile requests are contained",
 "Whatever bytes a peer sends, the server never panics or terminates, never runs a handler for anything but a well-formed request, and either answers with a client-error status or closes that connection. "
 "After any such input the server goes on serving other and new connections normally.",
 ["inputs", "histories"], "all byte sequences a peer can send, in any segmentation, ended by close, reset or silence",
 "No existing test talks to a server over a socket.",
 ["src/server.rs", "src/misc.rs", "src/router.rs", "src/deserializers/url_path.rs", "src/deserializers/url_query.rs", "src/deserializers/http_header.rs"],
 [("errors of reading, URL parsing, routing and deserialization are turned into a response or end the connection", "src/server.rs")],
 ["bytes sent to the hostile peer", "a probe call on another connection", "panics"])

prop("C08", "Each request on a connection gets exactly one response, in order",
 "On a kept-alive connection, any sequence of requests (accepted, rejected with 400/404/405, HEAD or not, with or without a body, whatever part of the body the procedure itself reads) produces exactly one complete, correctly delimited response per request, in request order, each matching its own request. "
 "No byte of one request is ever interpreted as part of another.",
 ["histories", "inputs"], "all sequences of request kinds on one connection",
 "It quantifies over histories of requests sharing one connection; the tests never send two requests.",
 ["src/server.rs", "src/serializers/rpc_response.rs"],
 [("per-connection read / dispatch / write loop that drains rejected bodies", "src/server.rs")],
 ["parsed response stream of the connection", "handler log"])

prop("C09", "Connections are isolated and the server keeps accepting",
 "A peer that stalls, disconnects, resets, sends garbage, does not read its responses, or whose handler is slow or never finishes, does not delay, alter or break the calls of other connections. "
 "The server keeps accepting new connections for as long as it runs, also after individual incoming connections fail while being accepted.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of a misbehaving connection with well-behaved ones, all accept failures",
 "It needs several connections, a controlled schedule and injected accept errors.",
 ["src/server.rs"],
 [("one fiber per connection; accept loop independent of them", "src/server.rs")],
 ["results of well-behaved calls", "server future still pending"])

prop("C10", "Every client call settles once, with its own response or an error",
 "Whatever the server does (refuses, resets or closes at any byte, sends malformed, unexpected or oversized data, splits its output arbitrarily), a call never panics and settles with an error, or with a response exactly when a complete well-formed response to it was received. "
 "Once the request has been sent, the call settles as soon as the response is complete or the connection has ended or failed, rather than staying pending.",
 ["fault_sequences", "inputs", "schedules"], "all server behaviours: every truncation point of a response, every connection outcome, every segmentation",
 "Unit tests have no connection; faults at every byte of an exchange are not reachable from them.",
 ["src/client.rs", "src/deserializers/rpc_response.rs", "src/deserializers/http_header.rs"],
 [("phased call future: connect, write, read head, read body, convert", "src/client.rs")],
 ["result of the call future"])

prop("C11", "Pooled connections never mix up calls and are reused only when clean",
 "Under every interleaving of pooled calls, completions, failures, cancellations and connection losses, each call receives the response to its own request or an error, and no connection carries two calls at the same time. "
 "A connection whose call failed, was cancelled, or whose response was not completely read, or which ended or failed or received other bytes before the next call was made, is never used for another call.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent calls on one pool, all fault and cancellation points",
 "There is no test of the pool, and interleavings of several fibers with the pool fiber cannot be sampled meaningfully.",
 ["src/pool.rs", "src/client.rs"],
 [("connections are handed out by ownership and returned only on successful completion", "src/pool.rs")],
 ["response per call", "requests seen per connection on the server side"])

prop("C12", "The pool reuses connections per address and stays within its size limit",
 "A call to an address that is not suspended and for which the pool holds an idle connection uses one instead of opening a new one, and never uses a connection of another address. "
 "The pool never holds more idle connections than its configured size: when the limit is exceeded it closes the one that has been idle longest, and no other.",
 ["histories", "configurations"], "all sequences of acquisitions and completions over several addresses x all pool sizes, including 0",
 "The pool has no tests; eviction order depends on the whole history.",
 ["src/pool.rs"],
 [("ordered connection map and LRU queue sharing sequence numbers", "src/pool.rs")],
 ["open connections per address", "number of connects"])

prop("C13", "An address whose connection attempt failed is suspended, only it, only so long",
 "After a connection attempt to an address fails or times out, pooled calls to that address fail immediately without a connection attempt until the configured suspension time has passed since the failure, and are attempted again afterwards. "
 "Other addresses are never affected, and failures of calls on an established connection never suspend an address.",
 ["histories", "fault_sequences", "configurations"], "all sequences of calls, connection outcomes and clock advances x all suspension durations",
 "No test; it depends on wall-clock time and on failing connects.",
 ["src/pool.rs"],
 [("per-address deadline checked on acquisition", "src/pool.rs")],
 ["connection attempts per address", "result and time of each call"])

prop("C14", "Every pooled call settles: connect timeout, pool shutdown, no stuck callers",
 "While the pool runs, a pooled call whose connection cannot be established fails no later than the configured connect timeout, and every other pooled call settles once its server answers or closes. "
 "A call made on a pool that has stopped fails instead of waiting forever, and one caller's failure, cancellation or wait never blocks other callers or the pool.",
 ["schedules", "fault_sequences"], "all interleavings and connection outcomes (success, refusal, silence), all moments of dropping callers or the pool",
 "No test; it needs a controllable network, clock and schedule.",
 ["src/pool.rs"],
 [("connect guarded by a timer; reply channel closed when the pool is dropped", "src/pool.rs")],
 ["settling time of each call"])

prop("C15", "Every error response is a consistent RFC 7807 problem document",
 "Whenever the server itself rejects a request (400, 404, 405), and whenever a problem is returned as a response, the response has content type application/problem+json, a JSON problem body whose status member equals the status line, and the matching type and title. "
 "A caller decoding such a response gets back an equal problem, for every status and every text in title, detail, instance and history.",
 ["inputs", "histories"], "all statuses x all problem contents x all rejection paths",
 "The documentation tests print two problems; status line and body are never compared.",
 ["src/rfc7807.rs", "src/server.rs"],
 [("problem response carries status, content type and JSON body built from one problem", "src/rfc7807.rs")],
 ["raw response bytes", "decoded problem at the caller"])

prop("C16", "JSON and MessagePack field adapters round-trip every value",
 "A field marked with the JSON or pretty-JSON adapter is carried as one string, wherever it is used in a path, query or header, and every value which JSON can express arrives as an equal value or is refused by its sender as that place would refuse the same string; the MessagePack adapter round-trips every value which MessagePack can express through a format that carries byte sequences. "
 "Content that is not valid for the field's type (also if it only begins with a valid value) is rejected with an error and never yields a different value.",
 ["inputs"], "all nested values of the adapted types (strings of any text, numbers, lists, maps, optionals)",
 "There are no tests of the adapters.",
 ["src/json.rs", "src/json_pretty.rs", "src/msgpack.rs"],
 [("adapter serializes to text/bytes, then delegates to the outer format", "src/json.rs, src/json_pretty.rs, src/msgpack.rs")],
 ["value received by handler / caller"])

prop("C17", "Conflicting registrations are refused and order never matters",
 "Registering two procedures with the same method and the same entry point fails for the second one and leaves the first in force; any other registration succeeds. "
 "The behaviour of a server depends only on the set of registered procedures, not on the order of registration.",
 ["configurations", "histories"], "all sequences of registrations",
 "It quantifies over all registration sequences; no test registers conflicting or permuted sets.",
 ["src/router.rs", "src/server.rs"],
 [("leaf occupied check on insertion", "src/router.rs")],
 ["result of registration", "dispatch of subsequent requests"])

prop("C18", "Requests are validated: extras ignored, missing or ill-typed arguments get 400",
 "Query parameters and headers a procedure does not declare never influence it, whatever their names, values and positions, and a declared optional that is absent is absent. "
 "A request in which a required argument is missing, or a given one cannot be parsed as its declared type (also out-of-range numbers), is answered with 400 and its handler does not run.",
 ["inputs"], "all raw requests: every order, repetition and mixture of known and unknown parameters and headers, every ill-typed value",
 "Tests decode only exactly matching inputs.",
 ["src/deserializers/url_query.rs", "src/deserializers/http_header.rs", "src/deserializers/url_path.rs", "src/server.rs"],
 [("serde-driven decoding with ignored values skipped", "src/deserializers/url_query.rs, src/deserializers/http_header.rs"), ("decode errors become 400", "src/server.rs")],
 ["value received by the handler", "status of the response"])

prop("C19", "Messages too large for a connection fail; they are never cut or corrupted",
 "Whatever the size of paths, queries and headers and the number of headers, a request or response is either transferred completely or the exchange fails with an error on the sending or receiving side. "
 "A head that does not fit is never accepted in part, never leaves a call waiting forever, and never affects other connections.",
 ["inputs", "configurations"], "all sizes of request and response heads around and beyond the limits of the implementation, any header count",
 "Tests use only tiny messages.",
 ["src/client.rs", "src/server.rs", "src/serializers/rpc_request.rs", "src/serializers/rpc_response.rs"],
 [("bounded head buffers on both sides", "src/server.rs, src/client.rs")],
 ["value received by handler / caller", "result of the call"])

prop("C20", "A call runs its handler at most once, and exactly once if it succeeds",
 "Under every schedule and every fault on the connection, plain or pooled, one call leads to at most one run of a handler, a call that returns a handler's response to exactly one, and a call that was refused before being sent to none. "
 "No handler runs without a complete request having been received.",
 ["schedules", "fault_sequences", "histories"], "all interleavings and fault points of one or several calls",
 "It needs fault injection on a live exchange and a count of handler runs.",
 ["src/client.rs", "src/pool.rs", "src/server.rs"],
 [("no retries; the request is moved into a single exchange", "src/client.rs, src/pool.rs")],
 ["handler log", "result of each call"])

prop("C21", "Servers and clients may run on several threads",
 "When the executor runs the connections of a server (or the calls of clients) on different threads, no registered handler is used by two threads at the same time (handlers are required to be Send, not Sync: the copies which serve the requests are made one after another), "
 "a thread which is inside the code of the application for one call (a handler, the future it returned, a serialization or deserialization, a body, a logger) never keeps the calls on other threads from being completed, "
 "except that making a copy of a handler may delay the making of further copies of the same handler, and every call gets its own response, whatever the order in which the threads proceed.",
 ["schedules"], "all orders in which 2-4 threads pass the boundaries of the application's code",
 "It needs control over the order in which real threads proceed; tests run on one thread or on whatever order the system picks.",
 ["src/server.rs", "src/router.rs", "src/client.rs", "src/pool.rs", "src/misc.rs"],
 [("the handler is copied for each request", "src/server.rs register"), ("the table of handlers is shared by the threads", "src/router.rs Router")],
 ["overlapping uses of a handler", "responses", "calls which cannot proceed"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
