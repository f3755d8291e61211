#!/usr/bin/env python3
"""Single source of properties.jsonl (run: tools/properties.py, writes ../properties.jsonl)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- persistence
prop("C01", "Persister is an append-only list with strictly increasing timestamps",
  "Whatever sequence of publishes (with default or explicit timestamps, raw or typed) and head updates is applied to an in-memory or on-disk persister, the accepted entries get indices 0,1,2,... and strictly increasing timestamps, and the head is never below the last entry's timestamp nor ever decreases. An operation whose timestamp is not greater than the head, or whose raw record has the wrong index, is refused with an exception and changes nothing. Every way of reading back (size, head, last entry, iteration by index range or time range, checked or raw, index range by time range) agrees with that list, and invalid ranges are refused.",
  ["histories", "inputs"], "all operation sequences up to a depth over a tiny timestamp alphabet, followed by all read queries over a small argument domain, on every persister",
  "The tests append a handful of entries with increasing times and read a few ranges; they never combine refused operations, head updates, gaps and boundary time ranges exhaustively.",
  ["blocks/persistence/memory.h", "blocks/persistence/file.h", "blocks/ss/persister.h"],
  [("PersisterPublishImpl / PersisterUpdateHeadImpl monotonicity checks", "blocks/persistence/*.h"), ("IndexRangeByTimestampRange", "blocks/persistence/*.h")],
  [("end / head", "next index and current head timestamp", "blocks/persistence/*.h")], ["Publish, PublishUnsafe, UpdateHead, Iterate*, IndexRangeByTimestampRange, LastPublished*, CurrentHead, Size"])
prop("C02", "Reopening an on-disk persister restores exactly what was published",
  "After any history of publishes and head updates on a file-backed log that was closed normally, opening the same file again yields the same entries (index, timestamp, payload), the same head, and accepts and refuses further operations exactly as the original instance would have. Opening does not change the entries, and the file of another schema or of a foreign format is refused rather than misread.",
  ["histories"], "all operation sequences up to a depth, with a close/reopen at every position (repeatedly)",
  "Tests reopen one or two hand-written files; head directives between, after and before entries and repeated reopens are not combined.",
  ["blocks/persistence/file.h"], [("ReplayFile / ValidateFileAndInitializeHead", "blocks/persistence/file.h"), ("head directive rewriting", "blocks/persistence/file.h")])
prop("C03", "A crash while appending never corrupts the log",
  "If the process dies at any moment while appending to a file-backed log, so that only some prefix of the bytes it wrote reached the file, then reopening the log either refuses loudly or yields a prefix of the published entries that includes every entry whose publish call had returned, each one intact. Entries appended after such a recovery are stored and read back correctly too, also across another reopen.",
  ["crash_points", "histories"], "every byte prefix of every short history's write log, then every short continuation",
  "No test cuts the file; crash points between and inside writes are never exercised.",
  ["blocks/persistence/file.h"], [("replay of the existing file on construction", "blocks/persistence/file.h"), ("flush after every record", "blocks/persistence/file.h")])
prop("C04", "Concurrent use of a persister is linearizable",
  "When several threads publish into, update the head of, and read from the same persister at once, every call behaves as if it ran alone at one instant between its start and its return: no entry is lost, duplicated, torn or reordered, readers see a prefix of the log, a time-bounded read never returns an entry outside its bounds, and no call crashes, deadlocks or reads memory that is being modified.",
  ["schedules"], "all interleavings of 2-3 threads with 1-2 calls each up to a preemption bound, both persisters",
  "The existing tests are single threaded or run one lucky schedule.",
  ["blocks/persistence/memory.h", "blocks/persistence/file.h"], [("SmartMutexLockGuard on the container/publish mutex", "blocks/persistence/*.h"), ("atomic end snapshot", "blocks/persistence/file.h")])
# ---------------------------------------------------------------- stream
prop("C05", "A stream subscriber gets every entry exactly once, in order",
  "For every interleaving of publishers, head updates and a subscriber, a subscriber that starts at index b (or at a time t) is given each entry from there on exactly once, in index order, with the index, timestamp and value that were published, together with a `last` that is never behind the entry; head updates it is told about never go backwards and never run ahead of entries it has not been given. A subscriber that waits for the n-th entry is always woken for it.",
  ["schedules"], "all interleavings up to a preemption bound of 1-2 publishers and 1-2 subscribers, by index and by time, checked and unchecked, memory and file persisters",
  "Stream tests sleep and check one schedule; lost wakeups and duplicate deliveries need particular preemptions.",
  ["stream/stream_impl.h", "stream/stream.h", "blocks/ss/pubsub.h"], [("SubscriberThreadInstance::ThreadImpl replay loop", "stream/stream_impl.h"), ("WaitableTerminateSignal bulk notifier", "bricks/util/waitable_terminate_signal.h")])
prop("C06", "Subscriptions and streams can always be torn down cleanly",
  "Destroying a subscriber scope, letting the subscriber decide to stop, destroying the stream while subscribers are active, and any combination of these at any moment always completes: nothing hangs, the subscriber is never called after its scope is gone, its termination callback runs exactly once, and no destroyed object is touched.",
  ["schedules"], "all interleavings up to a preemption bound of publish, terminate, stream destruction and subscriber activity",
  "Teardown races need a preemption inside a few instructions; tests only see the common order.",
  ["stream/stream_impl.h", "stream/stream.h", "bricks/sync/owned_borrowed.h", "bricks/util/waitable_terminate_signal.h"], [("SubscriberThreadInstance destructor / terminate signal", "stream/stream_impl.h"), ("Borrowed<stream impl> with destruction callback", "bricks/sync/owned_borrowed.h")])
prop("C07", "Only one party can publish to a stream at a time",
  "The right to publish into a stream is held by at most one owner: whoever takes the publisher (directly, for following another stream, or when the stream is turned into a follower) makes publishing through the stream fail until it is given back, and the log keeps gapless indices and increasing timestamps throughout. After giving the publisher back the stream can publish again.",
  ["histories", "schedules"], "all sequences of become-following / become-master / publish / move / release up to a depth, and all interleavings of short concurrent ones",
  "Tests walk through one master-follower-master path.",
  ["stream/stream_impl.h", "stream/stream.h"], [("Owned/Borrowed publisher with publishing mutex", "stream/stream.h")])
prop("C08", "The HTTP subscription parameters select exactly the documented entries",
  "For every combination of the documented URL parameters of a subscription to a stream over HTTP (i, since, tail, recent, n, period, stop_after_bytes, nowait, array, entries_only, json, checked, sizeonly, schema, terminate), every small log and every short continuation of it, the response contains exactly the entries, in order, each once, and in the layout (one record per line or one well-formed JSON array; with or without index and timestamp; in the JSON format asked for) that the documentation prescribes: all the constraints on the beginning of the subscription are respected together (the latest beginning wins), and the one on the end that is reached first ends it (`period` is counted, inclusively, from the first record returned). This holds while records are published, heads are updated, the stream is destroyed, the client terminates the subscription or goes away, in any order: the response is then ended properly, no other client and no publisher is affected, nothing crashes or hangs, and a subscription with nothing to send waits without spinning. Requests with an unsupported method get 405.",
  ["inputs", "histories", "schedules"], "all combinations of parameter values over a small domain, on all logs up to a few entries, with short continuations and every point at which the connection breaks; all schedules, up to a preemption bound, of the subscription, the publisher, the termination and the destruction",
  "Tests cover a few dozen hand-picked URLs; parameters interact pairwise and at boundaries, and with the schedule.",
  ["stream/pubsub.h", "stream/stream.h"], [("ParsePubSubHTTPRequest and PubSubHTTPEndpointImpl", "stream/pubsub.h"), ("ServeDataViaHTTP, SubscriberThreadInstance", "stream/stream.h")])
prop("C09", "Replication yields an identical log whatever the network does",
  "A follower that replicates a remote stream ends up with exactly the same entries, indices, timestamps and head as the master, however the transferred bytes are cut into chunks and wherever the connection breaks and is re-established: nothing is lost, duplicated, reordered or altered. Malformed data is never stored. Stopping the following ends cleanly with what was received so far in place. When the follower takes over from the master, exactly one of the two is the master afterwards, the new master holds every entry of the old one, and a take-over that is refused leaves both as they were.",
  ["fault_sequences", "schedules", "inputs"], "every split of the transferred bytes into chunks and every disconnect point for short logs, malformed and truncated records, take-overs with and without limits, checked and unchecked modes, every schedule within a bound",
  "Tests replicate over loopback where chunks happen to align with records and connections never break mid-record.",
  ["stream/replicator.h", "stream/pubsub.h", "stream/stream.h"], [("RemoteSubscriberThread chunk carry-over and resume index", "stream/replicator.h")])
# ---------------------------------------------------------------- storage
prop("C10", "Storage containers always agree with their mathematical model",
  "After any sequence of adds, overwrites, erases and lookups in one transaction or several, every storage container (ordered and unordered dictionaries; one-to-one, one-to-many and many-to-many matrices) shows exactly the records a plain map keyed the same way would hold: size, lookup by key, iteration in all directions, rows and columns, and last-modified times all agree, and for one-to-* containers the uniqueness of the `one` side holds with documented displacement of conflicting records.",
  ["histories"], "all operation sequences up to a depth over 2-3 row keys, 2-3 column keys and 2 values, for each container kind",
  "Tests exercise a few adds and erases per container; index structures can disagree after specific displacement sequences.",
  ["storage/container/dictionary.h", "storage/container/one_to_one.h", "storage/container/one_to_many.h", "storage/container/many_to_many.h", "storage/container/common.h", "storage/container/sfinae.h"], [("Add/Erase/operator() maintaining forward and transposed maps", "storage/container/*.h")])
prop("C11", "Storage transactions are all-or-nothing",
  "A transaction that returns normally makes all its changes visible and persists them as one log entry; one that throws or requests a rollback, at any point, leaves the data, the last-modified times and the log exactly as they were before it began. Results, exceptions and metadata are reported to the caller as documented, and a transaction that changed nothing persists nothing.",
  ["histories"], "all transaction bodies up to a depth over every container kind, from every state reachable by a short prefix, with a commit, a rollback or an exception at each position",
  "Tests roll back a couple of two-line transactions.",
  ["storage/transaction_policy.h", "storage/base.h", "storage/container/*.h"], [("MutationJournal with rollback log", "storage/base.h"), ("Synchronous::Transaction", "storage/transaction_policy.h")])
prop("C12", "A storage rebuilt from its log equals the original",
  "After any history of transactions, closing a storage and opening it again from its stream, replaying its log into a fresh storage, or following it from another storage produces exactly the same contents, including last-modified times, and each persisted transaction is applied exactly once and as a whole. The rebuilt storage continues to accept transactions with correct timestamps.",
  ["histories"], "all histories of up to a few transactions over every container kind, replayed after each step, in memory and on disk",
  "Tests replay one or two fixed files.",
  ["storage/persister/stream.h", "storage/storage.h", "storage/base.h"], [("StreamStreamPersisterImpl replay", "storage/persister/stream.h")])
prop("C13", "Concurrent storage transactions are serializable and followers converge",
  "Read-write and read-only transactions issued from several threads behave as if executed one at a time in the order of the log; a read-only transaction sees one consistent committed state, on the master and on a live follower, and every follower eventually holds the master's state. No combination deadlocks; after a graceful shutdown later transactions are refused while those already running complete, and destroying an owned storage waits for its borrowers.",
  ["schedules"], "all interleavings up to a preemption bound of 2-3 threads with one or two transactions each, with a follower and with shutdown",
  "Existing tests run transactions sequentially or on one schedule.",
  ["storage/transaction_policy.h", "storage/persister/stream.h", "storage/storage.h"], [("transaction policy mutex and scope", "storage/transaction_policy.h"), ("subscriber replay under transaction lock", "storage/persister/stream.h")])
prop("C14", "The REST API implements the documented resource semantics",
  "Whatever sequence of GET, POST, PUT, PATCH and DELETE requests is sent for dictionary and matrix fields, statuses, bodies and the resulting data follow the REST semantics of the documentation: reads never modify, creations and updates are reported with the right code and take effect exactly once, requests on missing resources, with malformed bodies, with mismatching keys or failed preconditions change nothing, and what GET returns is what is stored.",
  ["histories", "inputs"], "all request sequences up to a depth over a small set of keys, bodies and headers",
  "Tests follow one scripted dialogue per API flavour.",
  ["storage/api.h", "storage/api_types.h", "storage/rest/plain.h", "storage/rest/structured.h", "storage/rest/types.h"], [("RESTful handlers wrapped in transactions", "storage/api.h")])
# ---------------------------------------------------------------- messaging / sync
prop("C15", "The in-memory queue delivers every message exactly once, in order",
  "Whatever the interleaving of publishers and the consumer, the in-memory message queue hands each accepted message to its consumer exactly once, in the order of the indices returned to publishers, with strictly increasing timestamps and a `last` never behind the message. A dropping queue refuses a message only when it is full, tells the publisher so and does not consume an index for it; a blocking queue never refuses, never overwrites an unread message and always unblocks waiting publishers when space appears. Destroying the queue never hangs.",
  ["schedules"], "all interleavings up to a preemption bound of 2-3 publishers and the consumer on buffers of size 1-3",
  "Tests use one publisher with sleeps; slot reuse under wraparound with racing publishers is not reached.",
  ["blocks/mmq/mmq.h"], [("circular buffer with status per slot and head/tail", "blocks/mmq/mmq.h")])
prop("C16", "The time-ordered queue delivers in timestamp order without loss",
  "The ordering message queue hands every accepted message to its consumer exactly once, never before the head has passed its timestamp; of the messages held at that moment the one with the smallest timestamp goes first, equal timestamps going in publication order. A head update that does not move the head forward is refused. Concurrent publishers and head updates do not lose, duplicate or reorder messages, and destruction never hangs.",
  ["schedules", "histories"], "all sequences of publishes with timestamps from a small domain and head updates, and all interleavings of two publishers",
  "The test publishes one scripted order.",
  ["blocks/mmq/mmpq.h"], [("ordered set drained up to head", "blocks/mmq/mmpq.h")])
prop("C17", "Waitable values and terminate signals never lose a wakeup",
  "A thread waiting on a waitable value proceeds once the value satisfies its condition, whichever way and whenever another thread changes it, observes a consistent value under mutual exclusion, and a timed wait reports whether the condition was met; a waiter on a terminate signal returns once it is signalled or its condition holds, also when several signals are notified in bulk. Nothing touches a destroyed object.",
  ["schedules"], "all interleavings up to a preemption bound of one or two waiters and one or two modifiers",
  "Tests sleep between set and wait; lost wakeups need a preemption between check and wait.",
  ["bricks/sync/waitable_atomic.h", "bricks/util/waitable_terminate_signal.h"], [("notify under/after mutex in scoped accessors", "bricks/sync/waitable_atomic.h")])
prop("C18", "An owned object outlives all its borrowers",
  "The destructor of an owned object waits until every borrowed reference to it is released and then completes; until that moment the object stays valid for every borrower, borrowing after destruction began fails, each destruction callback runs at most once and only while its borrower is registered, and copies, moves and assignments of borrowed references keep this true.",
  ["schedules", "histories"], "all sequences of borrow/copy/move/assign/release up to a depth and all interleavings with the owner's destruction up to a preemption bound",
  "Tests run one interleaving per scenario; assignment over a live borrowed reference is not covered.",
  ["bricks/sync/owned_borrowed.h"], [("UniqueInstance borrower registry and condition variable", "bricks/sync/owned_borrowed.h")])
prop("C19", "The clock and lazily built objects behave under concurrency",
  "Timestamps returned by the framework's clock are strictly increasing across all calls in all threads; singletons and lazily instantiated objects are constructed exactly once and only seen fully constructed; scoped deleters run each registered action exactly once in reverse order of registration, and scope guards run theirs exactly once even when moved; futures hand over the value or the exception of their task, and a strict future left unused is reported instead of being silently dropped.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of 2-3 threads, and all short operation sequences for the scoped helpers",
  "Tests call these from one thread.",
  ["bricks/time/chrono.h", "bricks/util/singleton.h", "bricks/util/lazy_instantiation.h", "bricks/util/accumulative_scoped_deleter.h", "bricks/util/future.h"], [("EpochClockGuaranteeingMonotonicity", "bricks/time/chrono.h"), ("LazilyInstantiated", "bricks/util/lazy_instantiation.h")])
prop("C20", "RipCurrent pipelines deliver every message in order",
  "In every RipCurrent composition of sources, transformers and sinks, each message emitted by a block reaches every downstream block that accepts its type exactly once and in emission order, blocks are never entered concurrently, and finishing or destroying the flow processes what was emitted, terminates and destroys every block without hanging.",
  ["schedules"], "all interleavings up to a preemption bound of pipelines with 2-4 blocks and 2-3 messages, with joins (+) and chains (|)",
  "Tests compare the output of one schedule.",
  ["ripcurrent/ripcurrent.h", "blocks/mmq/mmq.h"], [("BlockInstance with MMQ based message passing", "ripcurrent/ripcurrent.h")])
# ---------------------------------------------------------------- HTTP
prop("C21", "HTTP messages parse the same however the bytes arrive",
  "For every well-formed request or response, the parsed method, path, parameters, headers, cookies and body are exactly what was sent, regardless of how the byte stream is cut into segments and how large the internal buffer is; chunked and fixed-length bodies are returned byte for byte. Malformed, truncated or oversized input produces an error answer or an exception from which the server carries on, never a crash, a hang or a wrong body.",
  ["inputs", "fault_sequences"], "every request in a small grammar x every split of its bytes into up to 3 segments (all splits for short ones) x several buffer sizes; every truncation point; every single-byte edit of key positions",
  "Tests send requests over loopback in one or two writes.",
  ["bricks/net/http/impl/server.h", "bricks/net/http/headers/headers.h", "blocks/http/chunked_response_parser.h", "blocks/http/impl/posix_client.h"], [("GenericHTTPRequestData constructor", "bricks/net/http/impl/server.h")])
prop("C22", "What an HTTP handler sends is what the client receives",
  "For every response (code, headers, cookies, content type, body) sent in one piece or in chunks of any sizes, cached or flushed in any pattern, the client decodes exactly the same data, with correct framing; a handler that sends nothing results in a server error answer, and a second response on the same request is refused.",
  ["inputs", "histories"], "all sequences of up to a few chunk sends over boundary sizes and flush modes and small cache sizes; all response shapes",
  "Tests send one or two small chunked responses with the default one-megabyte cache.",
  ["bricks/net/http/impl/server.h", "blocks/http/response.h", "blocks/http/impl/posix_client.h"], [("ChunkedResponseSender cache", "bricks/net/http/impl/server.h")])
prop("C23", "HTTP routes dispatch to the right handler at all times",
  "After any history of registering and unregistering routes, a request goes to the handler of the longest registered prefix of its path that accepts the remaining number of path components, which it receives decoded and in order, or gets 404; conflicting, unknown or invalid registrations are refused without side effects, and a scope unregisters exactly its own routes. Unregistering a route returns only when no call of its handler is in progress.",
  ["histories", "schedules"], "all register/unregister/request sequences up to a depth over nested paths and argument masks; interleavings of a request with unregistration",
  "Tests use a few disjoint routes.",
  ["blocks/http/impl/posix_server.h", "blocks/url/url.h"], [("DoRegisterHandler/FindHandler/UnRegister", "blocks/http/impl/posix_server.h")])
prop("C24", "URLs survive parsing and composing",
  "Encoding then decoding any byte string as a URL component gives it back; parsing a composed URL gives back the same scheme, host, port, user, path, parameters and fragment, composing is a fixed point after one parse, and filling an object from query parameters gives the values that were encoded. Redirect resolution and defaults follow the documented rules.",
  ["inputs"], "all strings up to a length over an alphabet with every class of special character; all combinations of URL parts",
  "Tests check a list of typical ASCII URLs.",
  ["blocks/url/url.h"], [("EncodeURIComponent/DecodeURIComponent, ComposeURL, parsers", "blocks/url/url.h")])
# ---------------------------------------------------------------- typesystem
prop("C25", "JSON serialization round-trips every value in every format",
  "For every value of every supported type (primitives at their extremes, finite floating point numbers, strings with any characters, enums, structs with inheritance, optionals, vectors, maps, sets, pairs, tuples, variants, and their nestings) and for each of the supported JSON dialects that is meant to be parsed back, serializing produces valid JSON and parsing it gives back an equal value; serializing that again gives the same text. Patching an object with a JSON changes exactly the fields this JSON mentions, and what it adds has default values in the fields it does not mention.",
  ["inputs"], "all values of a family of nested types up to a size bound, all dialects",
  "Tests check chosen literals per type.",
  ["typesystem/serialization/json/*.h"], [("JSONStringifier/JSONParser specializations", "typesystem/serialization/json/*.h")])
prop("C26", "Malformed JSON is rejected cleanly",
  "Parsing any text that is not the serialization of a value of the requested type (truncated, with a wrong type, a missing field, an out-of-range or malformed number, unknown variant case, excessive nesting, or arbitrary bytes) throws the documented exception and never crashes, reads out of bounds, hangs or silently yields a made-up value.",
  ["inputs"], "every prefix, every single-byte deletion and replacement (over a token alphabet) of every small document, and every structural mutation of its tree, for each type and dialect",
  "Tests list a few bad inputs per type.",
  ["typesystem/serialization/json/*.h"], [("type checks before reading a rapidjson value", "typesystem/serialization/json/*.h")])
prop("C27", "Reflection describes types faithfully and type IDs identify them",
  "Structurally different types get different type IDs and structurally equal ones equal IDs, stably across runs; the reflected schema of a type lists exactly its fields with their types, survives its own serialization, and the schemas generated in other languages mention every type and field of it.",
  ["programs", "configurations"], "all types generated from a small grammar of type constructors up to a nesting depth, pairwise",
  "Tests compare a few dozen hard-coded IDs and one golden schema.",
  ["typesystem/reflection/*.h", "typesystem/schema/schema.h"], [("CalculateTypeID", "typesystem/reflection/types.h")])
prop("C28", "Variants and optionals have value semantics",
  "After any sequence of constructions, copies, moves, assignments (including self-assignment), resets and in-place changes, a variant or optional holds exactly the case and value a reference model holds, copies are independent, existence checks, typed access and visitor calls agree with it, access to an absent or different case throws, and nothing leaks or is freed twice. Evolving a value into a wider type naturally preserves every field, case and element.",
  ["histories", "inputs"], "all operation sequences up to a depth over 2-3 objects and all cases; all small values for evolution",
  "Tests check individual operations, not their compositions.",
  ["typesystem/variant.h", "typesystem/optional.h", "typesystem/evolution/type_evolution.h"], [("Variant implementation over unique_ptr", "typesystem/variant.h"), ("Optional specializations", "typesystem/optional.h")])
# ---------------------------------------------------------------- fncas, strings, misc
prop("C29", "FnCAS evaluates, differentiates and optimizes exactly what was written",
  "For every expression, and every program that updates variables and vectors of them in place, the recorded form and each of its compiled forms (native x64, as, nasm, clang) evaluate to the same values as the plain C++ does, and the gradient, interpreted or compiled, is the mathematical one, at every point where they are defined; what is shared is differentiated once, not once per path. Independently recorded, compiled, and moved functions do not disturb one another, including across threads and after the recording they come from is over; a second recording within the same thread is refused. Optimization never returns a point worse than the starting one, reports the value at the point it returns, and gives the same result with and without JIT; maximizing a function is minimizing its negation.",
  ["inputs", "programs"], "all expression trees up to a size over the supported operations and constants (including 0, 1, -1 special cases), at a grid of points",
  "Tests check a few dozen formulas.",
  ["fncas/fncas/node.h", "fncas/fncas/differentiate.h", "fncas/fncas/jit.h", "fncas/fncas/optimize.h"], [("node simplifications, differentiator, JIT code generators", "fncas/fncas/*.h")])
prop("C30", "String and encoding utilities are exact inverses where documented",
  "Splitting and joining are inverse of each other under the documented skip/keep policies, base64 (plain and URL-safe) decodes what it encodes and agrees with the standard, number and string conversions round-trip, trimming, escaping and chunk views agree with their definitions, CRC32 and SHA256 match the standards, grouping by lines does not depend on how the input is fed, the edit distance is the minimal number of edits, rounding keeps the stated number of digits, and the named groups of a regular expression capture what its unnamed groups would.",
  ["inputs"], "all strings up to a length over a small alphabet including separators, NUL and non-ASCII bytes, all separators, all ways to cut the input",
  "Tests check selected literals.",
  ["bricks/strings/*.h", "bricks/util/base64.h", "bricks/util/crc32.h", "bricks/util/sha256.h"], [("Split/Join/Trim/Chunk/StatefulGroupByLines", "bricks/strings/*.h")])
prop("C31", "Tabular and log formats round-trip and inference is sound",
  "Rows packed in compact TSV unpack to the same rows, for all cell contents and sizes it supports; CSV text (without quoting) parses into exactly the fields between its commas and line ends, empty ones included, and a file with rows of different lengths is rejected; a schema inferred from JSON samples describes every one of these samples (null and missing fields as optional, empty arrays ignored as documented), and incompatible samples are rejected; replaying an operational-transformation history yields the text its operations denote and rejects invalid histories.",
  ["inputs"], "all small tables over an alphabet with separators, quotes and boundary lengths; all small JSON sample sets; all operation lists up to a depth",
  "Tests use golden files.",
  ["compact_tsv/compact_tsv.h", "utils/csv/csv.h", "utils/json_schema/infer.h", "utils/operational_transformation/ot.h"], [("CompactTSV Packer/Unpacker", "compact_tsv/compact_tsv.h")])
prop("C32", "Karl tracks the fleet correctly under any event order",
  "Whatever the order and timing of service registrations, keepalives, restarts of the services and of Karl, deregistrations and time passing, Karl reports a service as active from its keepalive until it deregisters or has not been heard of for longer than the timeout; it is then timed out, no later than two timeouts after its last keepalive, and never by mistake right after a keepalive or after a deregistration. The report lists exactly the services heard of within its window, each with its latest keepalive, dependencies and build, as up or down as of now; the snapshot is the latest keepalive; those to be notified are told of each of these events once and in order; the starts and stops of Karl are on record. A Claire whose keepalive was awaited is known to Karl with what it said, wherever it was redirected to, its own page always shows a status it did have, and it is deregistered once gone.",
  ["histories"], "all sequences of up to three events over three services on two sockets with time steps around the timeout; all the schedules within a bound of keepalives against timeouts, deregistrations, reports and the restart of Karl",
  "Tests script a few fleets.",
  ["karl/karl.h", "karl/claire.h"], [("GenericKarl storage of claires and timeout thread", "karl/karl.h")])
prop("C33", "Command-line flags and self-modifying configs are exact",
  "Any command line in the documented forms sets exactly the named flags to the given values and leaves the remaining arguments in order; unknown, malformed or repeated-definition cases fail as documented. A self-modifying configuration file always holds a complete valid configuration, whichever point an update is interrupted at, and re-reading it gives the last accepted value.",
  ["inputs", "crash_points"], "all argument vectors up to a length over a small alphabet; all update sequences with a crash at every file operation",
  "Tests check selected command lines and one update.",
  ["bricks/dflags/dflags.h", "blocks/self_modifying_config/config.h"], [("ParseDFlags", "bricks/dflags/dflags.h"), ("config rename/write sequence", "blocks/self_modifying_config/config.h")])
prop("C34", "The file system wrapper lists, removes, reads and writes exactly what it says",
  "Scanning a directory reports each of its entries exactly once (and, when recursive, each entry below it), with the right names, kind, and path components, as filtered, and stops right after the item at which it is told to, wherever it is. Removing a directory recursively removes all of it and nothing outside of it (links are removed, not followed); what can not be removed is reported unless asked to be silent, and a non-empty directory is not removed unless asked to recursively. Scoped files and directories are gone at the end of the scope. What is written or appended is what is read, as a whole, by lines, and by size; any failure, such as a missing file or a directory in place of a file, is reported by the documented exception. Paths are joined with exactly one separator.",
  ["inputs", "histories"], "all trees of up to four nodes (files, directories, links) with every filter, stop, and failing removal; all sequences of up to three operations; all short names",
  "Tests scan and remove one or two small directories.",
  ["bricks/file/file.h"], [("FileSystem::ScanDirUntil, RmDir", "bricks/file/file.h")])
prop("C35", "Timestamps, dates and intervals as text are exact",
  "A timestamp formatted as a date, in UTC or in the local time zone, in the formats of HTTP or a custom one, is the calendar date and time of that moment; parsing it back gives the very second, or its last microsecond if asked to pad up, for every date from 1970 on, leap days, ends of months and of years, and changes to and from the summer time included (an hour which takes place twice may be either). What is not a date is zero. An interval of time is spelled out as its exact days, hours, minutes and seconds, either direction; the fixed-size text of a timestamp is read back as is and is ordered as timestamps are.",
  ["inputs"], "every day of 200 years and every second around the special ones; six time zones, every half an hour of six years, every second around the changes; all the intervals of up to two days",
  "Tests check a handful of dates.",
  ["bricks/time/chrono.h", "bricks/strings/time.h"], [("FormatDateTime, DateTimeStringToTimestamp", "bricks/time/chrono.h"), ("TimeIntervalAsHumanReadableString", "bricks/strings/time.h")])
prop("C36", "Composed documents denote exactly what they were composed of",
  "A universal JSON value, parsed from any JSON text or built by hand, holds what the text says (strings, numbers, nulls, arrays, objects in the order of their keys, with the last value of a repeated one), composes a well-formed JSON of the same value, and malformed texts are rejected; an edited object is always the ordered map of its edits. A graph composed in the DOT language, whatever the labels, is read back as the same nodes, edges, groups and parameters. An Nginx config is read back as the same tree of directives, with references to the created servers and locations staying valid, and a port being used once. An HTML page has all its tags closed, in the right order, even if an exception leaves it, and pages of different threads do not mix.",
  ["inputs", "histories"], "all JSON values of up to four nodes, texts of up to five tokens, graphs of up to three nodes, configs of up to four directives, sequences of up to five steps, pages of up to four elements",
  "Tests compare a few documents with golden ones.",
  ["blocks/json/json.h", "bricks/dot/graphviz.h", "utils/nginx/config.h", "blocks/html/html.h", "blocks/html/tags.h"], [("ParseJSONUniversally, DoAppendToJSON", "blocks/json/json.h"), ("GenericGraph::AsDOT", "bricks/dot/graphviz.h"), ("ConfigPrinter", "utils/nginx/config.h"), ("HTML tags", "blocks/html/tags.h")])

prop("C37", "The HTTP client sends exactly what it was asked to, returns what it got",
  "Whatever the request (GET, HEAD, DELETE, POST, PUT, PATCH; with or without a body, given, from a file, or an object; with custom headers, cookies, a user agent and a content type), the client connects to the host and port of the URL, sends the method, the path and query, and each header, cookie and byte of the body once, and returns the code, headers, cookies and body of the response, in memory or in a file, without waiting for more than the response has (for HEAD: its described body, if sent, included). Redirects are followed if allowed, with the same request to the right place each, and otherwise, or in a loop, are reported. A response cut short is an exception and does not become a file. The callbacks of a chunked request are given each chunk, line and header and the end, in order, whichever of them were set and in whichever order.",
  ["inputs", "histories"], "all the combinations of the parts of a request, all chains of up to three redirects, all cuts of a response, chunked responses of up to three pieces with all orders of setting the callbacks",
  "Tests make a few requests to the local server of the same library.",
  ["blocks/http/impl/posix_client.h", "blocks/http/types.h", "blocks/http/chunked_response_parser.h"], [("GenericHTTPClientPOSIX::Go", "blocks/http/impl/posix_client.h"), ("ChunkedGET, ChunkedPOST", "blocks/http/types.h")])

prop("C38", "A query matches a schema exactly as its operators mean",
  "Whatever the query, each of its terms is annotated as is, normalized, by the custom annotation and by the dictionaries. A schema, however composed of dictionaries, keywords and None with &, |, >>, <<, Void, Map, Filter, Maybe and GreedyMaybe, emits exactly what its operators mean, each result once and in order: both sides for the same part of the query, either of them, one followed by the other for every way to split, one unit if anything, each result mapped or filtered by the function of this very block. Just matching a query returns the first of these results, or nothing if there are none.",
  ["inputs"], "all queries of up to four terms over seven kinds of terms, by all schemas composed of four leaves to the depth of three (over nine hundred of them)",
  "Tests match a few queries with a few schemas.",
  ["nlp/nlp.h", "nlp/nlp_schema_begin.inl"], [("SchemaBlock", "nlp/nlp.h"), ("MatchQueryIntoVector, JustMatchQuery", "nlp/nlp.h")])

prop("C39", "The event collection server logs every request exactly, with ticks between",
  "Whatever requests come and in whatever order: each line of the body of a POST which is an event of an application is logged as this very event; a GET, a HEAD, or another line of a POST, with the parameters of a web event (in the URL or in the body, the body has precedence) and the headers it takes, is logged as that web event; and anything else, be it valid JSON or not, is logged as unparsable, with its method, headers, cookies and body. Nothing is lost or logged twice, each request gets the response text, and the count of events pushed is exact. Entries reach the consumer one at a time, in the order of their timestamps; with ticks enabled, a tick comes whenever the interval has passed since the last event or tick (unparsable requests do not count), and never earlier. Once the server is destroyed, which is always possible, the consumer is not called.",
  ["inputs", "schedules", "histories"], "all requests of a family of methods, parameters, headers and lists of lines, all short sequences of them, all schedules of the timer, the requests and the destruction up to a preemption bound",
  "Tests send a few valid events one after another.",
  ["midichlorians/server/server.h", "midichlorians/server/schema.h"], [("midichloriansHTTPServer::ProcessRequest", "midichlorians/server/server.h"), ("midichloriansHTTPServer::TimerThreadFunction", "midichlorians/server/server.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
