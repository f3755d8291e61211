# Per-property design notes; tools/design.py puts DESIGN.md together.
D = {}
D['C01'] = '''Space: every history of 3 (thorough 4; `memory_deeper` 4/6 over a smaller alphabet) operations — publish with the default or an explicit timestamp 0..3, typed or raw, `UpdateHead`, with `Now()` mocked at each value — on the memory and file persisters, plain and variant entries. After each history *all* read queries over a boundary domain are made: iteration (checked/raw) by every index pair and every time pair, `IndexRangeByTimestampRange`, size, head, last entry. Oracle: a list model (`persist_model.h`), including which calls must throw and must then change nothing.
Out of scope: `PublishUnsafe` (does not compile; its implementation is called directly).'''
D['C02'] = '''Space: every history of 3 (4) operations with close/reopen as one of the operations, at every position, repeatedly; `foreign`: files of another schema, another format, damaged lines; `unwritable`: files that cannot be opened. Oracle: the C01 model must survive the reopening; foreign files must be refused and left byte-for-byte alone.'''
D['C03'] = '''Space: every history of 3 (5) appends/head updates, crashed at every byte of every file operation (journal prefix), recovered by the real constructor, then every continuation of 2 operations and another reopen; `disk_full`: the file system refuses everything from every position on. Oracle: the recovered log is a prefix containing every acknowledged entry, each intact, or a loud refusal; nothing refused by the file system is acknowledged.'''
D['C04'] = '''Space: all schedules (preemption bound 3; thorough 5) of writer+reader, two writers, three threads, time-bounded readers, slow iterators, on both persisters. Oracle: happens-before races, use after free, deadlocks, and linearizability of the completed history against the list model (`lin.h`, exhaustive search for a linear order).'''
D['C05'] = '''Space: all schedules (bound 2; 4) of 1–2 publishers, head updaters, 1–2 subscribers (by index, by time, filtered by type, checked/unchecked, stopping by themselves) on memory and file persisters. Oracle: every subscriber logs what it is given; log, `last`, and heads are compared with the published list; a waiting subscriber has to be woken (`memory_woken`: virtual time must not pass the polling period).'''
D['C06'] = '''Space: all schedules (bound 2; 4) of subscriptions ended by scope destruction, by assignment, by the subscriber's own decision and by the destruction of the stream, alone and in pairs, while a publisher is active. Oracle: deadlock detector, use-after-destruction, exactly one termination callback, no call after the scope is gone.'''
D['C07'] = '''`publisher` (ENUM): all sequences of 5 (6) of borrow / become following / become master / publish through each handle / move / release, against a model of who holds the right. `handover` (SCHED): the same operations from two threads, bound 3 (4).'''
D['C08'] = '''`subscribe` (ENUM): the cross product of values of the parameters over logs of up to 4 entries: `left_boundary` (i × since × tail × recent × …), `right_boundary` (n × period × stop_after_bytes × nowait × …), `follow`/`follow_file` (with every continuation of publishes and head updates), `special` (sizeonly, schema, terminate, methods), `broken_connection` (closed at every byte). Oracle: an automaton of the documentation which predicts the body byte for byte. `live` (SCHED): subscriptions vs. publishers, stream destruction, `terminate`, clients going away, records from the future (which must not spin).
Decided with the code where the documentation is silent: `period` counts inclusively from the first record returned; heads preceding the first record are optional; a second `terminate` answers 200; malformed numbers parse as 0 (not claimed).'''
D['C09'] = '''SCHED with delay bounding over the in-memory network: the real master serves the real `RemoteStreamReplicator`; memory and file followers. `broken_anywhere`/`ends_early`: the connection breaks at every byte; `chunks`: every cut in three; `malformed`: damaged records and lines; `stopped`, `master_gone`; `flip*`: take-over with its limits (`max_index_diff`, `max_head_diff`), checked and unchecked. Oracle: the follower's log equals (or is a prefix of, while stopped) the master's; requests are counted, so that a reconnection loop is a violation.
Not claimed: unreachable masters (busy retry by construction), unchecked mode stores record JSON as is.'''
D['C10'] = '''Space: every sequence of operations (adds, overwrites with self-aliased arguments, erases, lookups; depth 3 exhaustively, 4–6 thorough) over 2×2 and 3×3 keys for all 14 container types (ordered/unordered × dictionary, 1:1, 1:M, M:M). After *every* operation everything readable is read: size, lookups, both directions of iteration, rows, columns, existence, last-modified. Oracle: `storage_model.h`, a plain map.'''
D['C11'] = '''`rollback`: from every state reachable by 2 (3) operations, every body of 2 operations, rolled back, for every container kind; then one more operation. `transactions`: the same on the real storage with every way to end a transaction (return, rollback with/without value, exceptions, two-step), metadata, read-only, shutdown. Oracle: model state, last-modified, log length and content, returned value/exception.'''
D['C12'] = '''`replay`: every operation sequence, with the log replayed into a fresh container after every operation. `storage`: every pair of transactions with reopening (memory stream, file), live followers, and take-over. Oracle: the model, plus equality with the original.'''
D['C13'] = '''SCHED, bound 2 (3): two/three writers, readers, live followers, flips, shutdown, destruction, on memory and file streams. Each transaction doubles a counter and adds its own digit, so the final value tells the serial order, which must be that of the log and of every follower.'''
D['C14'] = '''ENUM: dialogues with `Plain`, `Simple` and `Hypermedia` APIs over the real HTTP server and the in-memory network: `dictionary` (22176 dialogues: every initial content × every request × preconditions), `matrix` (14976), `pages`, `keys`, `follower`, `cqs`, `routes`. Oracle: a model of the resources; statuses, bodies, `Last-Modified`, data and the log (nothing logged by refused requests).
Not claimed: unencoded URLs within responses; `n=0`; POST over an existing key may be 200 or 201.'''
D['C15'] = '''SCHED, bound 3 (5): 2–3 publishers and the consumer, buffers of 1–3 slots, blocking and dropping, explicit and default timestamps, destruction at any point, a publisher whose timestamp gets stale while waiting (`refused_waiter`). Oracle: FIFO model over the returned indices; refusals only if full; deadlock detector.'''
D['C16'] = '''SCHED, bound 3 (5): two publishers, head updates, equal timestamps, defaults, destruction. Oracle: priority queue model over the delivered order.'''
D['C17'] = '''SCHED, bound 3 (6): waiters × modifiers × ways to change the value (`SetValue`, `MutableUse`, scoped accessors, `UseAsLock`), timed waits, intrusive clients destroyed while waiting, terminate signals, bulk notifiers. A lost wakeup is a deadlock, or virtual time passing where it must not.'''
D['C18'] = '''`borrow` (SCHED, bound 3/6): owner destruction vs. borrowers, callbacks, moves. `ops` (ENUM): all sequences of 4 (5) handle operations over 3 handles and 2 owners, against a registry model.'''
D['C19'] = '''`clock` (SCHED): the real `EpochClockGuaranteeingMonotonicity` with a frozen, ticking or backward system clock; singletons; thread-local singletons. `scoped` (ENUM): all operation sequences of deleters, scope guards, lazy objects, futures (strict/relaxed) against models.'''
D['C20'] = '''SCHED: 16 shapes of real flows (chains, joins, splits, swaps, two threads of one source, schedulers, two flows at once), bound 2 (3). Oracle: per-block logs vs. the emitted sequences; no overlap of calls into a block; every block constructed is destroyed; no hang.'''
D['C21'] = '''ENUM: messages composed from start lines × headers × framing × bodies × variants; delivered under every cut into two segments (three for short ones), several buffer sizes; every truncation; single-byte edits; malformed framing; `server_survives`: the server answers the next client; the real client against scripted servers, and chunk-by-chunk reading. Oracle: the message as composed, and an independent parser for edits.
Either outcome is allowed for: request targets starting with `?`/`#`, one-word request lines, NUL in headers, conflicting `Content-Length`.'''
D['C22'] = '''ENUM: all response shapes (2263), all sequences of 4 (5) chunks of boundary sizes with 8-, 32-byte and 1M caches × flush modes, all 6-operation protocols on a connection (second responses, empty handlers, moves), all `Headers` operation sequences. Oracle: an independent reader (`httpwire.h`), and the real client.'''
D['C23'] = '''`routes` (ENUM): all histories of 3 (4) registrations/updates/unregistrations of nested paths × argument masks, probed through the real server with all paths; scopes; static files. `live` (SCHED, bound 3/7): requests vs. unregistration, updates, reentrant handlers, two registrars, server destruction, answers given later from another thread.'''
D['C24'] = '''ENUM: all component strings, all combinations of URL parts (228096), query strings, all pairs for redirects (562176), objects filled from queries in all strictness modes. Oracle: an independent URL model.'''
D['C25'] = '''ENUM: values of a family of types by nesting, every dialect, all 2047 double exponents × mantissa patterns, all 16-bit integers, all short strings over an alphabet with controls, quotes, NUL and surrogates, all partial patches. Each text is also read by `json_model.h` (an independent decoder), parsed back, and serialized again. `patch_nested` patches structs in place and the
ones that the patch adds to containers with incomplete objects, and the full patches are also parsed over an object that holds something else.'''
D['C26'] = '''ENUM under address+undefined sanitizers: all prefixes, all single byte edits over a token alphabet, single (thorough: pairs of) structural edits of the serializations of the family. Oracle: the model decoder says whether the text denotes a value of the type; if not, the documented exception must come, otherwise the value must be the one denoted.'''
D['C27'] = '''ENUM over types: 764 types generated by nesting constructors, all pairs for collisions, all orders of reflection, schemas of pairs in every language. IDs are compared with `golden_ids.h`: they are a part of the persisted format. Known findings: collisions inherent to the hash (below).'''
D['C28'] = '''ENUM: all sequences of 3 (4) operations on two or three variants/optionals incl. self-assignment, aliasing, nested case lists; instance counting; optionals under sanitizers; evolution of every small value through natural evolvers.'''
D['C29'] = '''ENUM: `trees`: all expressions with up to 3 operations over two variables and five constants (0, 1, −1, …) at six points; `programs`: all straight-line programs of 3 statements updating variables in place; `locals`, `histories` (record/compile/move/destroy, threads), `compilers` (x64, as, nasm, clang), `optimizers` (every method × function × start × JIT on/off), `dimensions`. Oracle: plain C++ evaluation and forward-mode derivatives, compared where all intermediates are finite (values) and at smooth, well-conditioned points (gradients, 1e-6). `locals` has a time limit: differentiating shared nodes must not be exponential.'''
D['C30'] = '''ENUM: all strings up to 5–7 symbols over an alphabet of separators, NUL, CR/LF and non-ASCII bytes × separators × policies × cuts; all byte triples for base64, all malformed strings; all 8/16-bit numbers; hashes vs. independent implementations at all lengths around block boundaries.'''
D['C31'] = '''ENUM: TSV tables with cells at the size limits; CSV texts of all short strings over `,`, LF, CR, digits; sets of JSON samples by size; all OT histories of small edits. Oracle: independent definitions.'''
D['C32'] = '''SCHED over the in-memory network and the virtual clock: the real Karl (both HTTP servers, storage, log of keepalives, timeout thread) and the real Claire. `events` enumerates all the histories of one to three events (keepalives of three services, one being the restarted other, with and without build info; deregistrations; 30, 100, and 400 seconds passing; restarts of Karl), against a model of the fleet that checks the state of each service, the notifications, the report in two forms, the snapshots, the builds, and the log of Karl's starts. The rest explores schedules: a keepalive or a deregistration against the timeout of the same service (sleeps may elapse at any moment), the snapshot and the report against a keepalive, keepalives during the startup and the shutdown of Karl, Claire's own page against its changes, and Claire being redirected to another Karl. Each is explored both by delays and by preemptions, as two units, as the first reaches deeper orders and the second more races per second. Out of scope: the HTML/Nginx/Graphviz renderings, and a handler of Claire's page being in flight while Claire is destroyed (nothing in the HTTP server waits for it).'''
D['C33'] = '''`dflags` (ENUM): all command lines of up to 3 (4) arguments of an alphabet of documented and malformed forms, all flag types × value texts. `config` (CRASH): all short histories of a self-modifying config, crashed at every file operation and byte, and with every write refused. The config file (not the historical copy) must always hold one complete configuration.'''

D['C34'] = '''ENUM on the real file system, in a scratch directory. `scan` and `rmdir_tree`: all trees of up to four (five) nodes, each a file, a directory, or a link to a file, to a directory outside, or to nowhere. Every filter, every point to stop the scan at, and the removal of every node failing. `operations`: all sequences of three (four) operations against a model of the tree, which is read back in every way after each of them. `names`: all short paths. As the code under test is what confines the removals, `remove`, `unlink` and `rmdir` are stand-ins: anything outside of the directory being removed, also via a link, is recorded as a violation and not carried out. Out of scope: a link given as the directory to remove itself, cycles of links.'''
D['C35'] = '''ENUM: every day of 200 (230) years, every second of some hours next to the ends of years, Februaries and 2^31, 2^32 seconds; six POSIX time zones by half-hours, by seconds around the changes of the summer time. Oracle: a calendar counted day by day. Intervals: all up to two days and at 10000 days, against arithmetic on integers. Out of scope: moments before 1970, trailing text after a date (ignored by `strptime`).'''
D['C36'] = '''ENUM: all JSON values of up to four (five) nodes over the special strings and numbers, parsed from the text and built by hand; all texts of up to five (six) tokens, for the malformed ones to be refused; all edits of an object. All graphs of up to three nodes with two (three) edges and two groups, with labels made of quotes, backslashes, newlines and the syntax of DOT. All trees of Nginx directives, all sequences of creating servers and locations with the references to all of them used later. All HTML pages of up to four (five) elements, with an exception at every step. Independent readers of JSON, DOT and Nginx configs decide. Out of scope: texts of HTML and Nginx parameters are written raw by design; edges of nodes not in the graph; a node added to the graph twice.'''

D['C37'] = '''The client runs as is over a network in memory (`checks/common/fakenet.h`) whose peers are scripted: what each connection
is to which host and port, all the bytes it was sent, and the bytes it answers with, whole or one at a time, with the connection
then closed or left open (a client waiting for more bytes than the response has would block, which is reported). `requests`
enumerates every kind of request by every combination of URL, user agent, headers, cookies, body, content type, response and its
destination; the request as sent is parsed by an independent parser and compared with what was asked for. `redirects`
enumerates all the chains of up to three redirects over codes and forms of `Location`, with a set-based oracle for loops. `chunked`
enumerates responses of up to three pieces and every order of setting every subset of callbacks. `failures` enumerates every cut of a
response and a refused connection. Two defects were found and repaired: `OnDone()` dropped an earlier `OnLine()`, and the fragment of
the URL was sent to the server. One is recorded (`head`): a response to HEAD with a Content-Length and, as the standard has it, no body
is waited for and is an exception; the unit tests of ripcurrent rely on bodies of responses to HEAD being sent and received, so
there is no small repair. Out of scope: a body delimited by the end of
the connection only (ignored, as the comments of the parser say), TLS, and relative redirects with no leading slash.'''

D['C38'] = '''The schemas are C++ expressions, so the family of schemas is instantiated at compile time by generic code: four leaves
(two dictionaries which share a term, a keyword, and None), every unary composition (Void, two maps and two filters of the same
types and different functions), every binary one, unary ones of these, and binary ones of these and of leaves on either side. Each
schema is built along with its meaning: a function from a part of the query to the list of results, written from the description of
the operators with plain loops over lists. `flat` and `deep` enumerate every query of up to four terms (different case and white
space included), match it against every schema, and compare the whole list of results, in order, and the result of `JustMatchQuery`.
`annotations` compares the annotations of each term. One defect was found and repaired: blocks of the same type shared the static
object of the first one, and thus its function. Out of scope: a Map into `Unit`.'''

D['C39'] = '''`collect` sends every request of a family through the real HTTP server over the network in memory to the real
`midichloriansHTTPServer` (mock time, no ticks) and compares what the consumer gets, the response and the counter with a model that
reads the request with its own code: all sets of web parameters in the URL, in the body, split between them and in both with
different values; all sets of headers; all lists of up to two (and some longer) lines over events of all types, broken and truncated
ones, and valid JSONs of wrong types; all sequences of four requests. `ticks` explores the schedules of the timer thread, the server
thread, the client and the destruction with the real clock virtualized: entries one at a time, ordered, ticks neither early nor
missing, nothing lost, nothing after the destruction; data races are reported. One defect was found and repaired: a valid JSON that
is not an event ended the processing of the request with an exception, and the lines after it were lost. Domain: `_t` is a number,
the length of the body is stated.'''
