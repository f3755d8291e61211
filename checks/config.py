# The checks: one entry per property. See check.py for the meaning of the fields.
CHECKS = {}
NOT_APPLICABLE = {}


def sched(name, src, qb, qt, tb, tt, **kw):
    d = dict(name=name, engine='sched', src=src, quick=dict(bound=qb, time=qt), thorough=dict(bound=tb, time=tt))
    d.update(kw)
    return d


def enum(name, src, qt=40, tt=600, q=None, t=None, **kw):
    d = dict(name=name, engine='enum', src=src, quick=dict(time=qt, params=q or {}), thorough=dict(time=tt, params=t if t is not None else (q or {})))
    d.update(kw)
    return d


FAST = dict(cc='clang++', opt='-O0')  # For harnesses that take long to compile.
SCHED_A = ['sequentially consistent interleavings at the granularity of synchronization operations and of accesses to objects seen shared; weaker memory orders only through the data-race detector',
           'condition waits do not wake spuriously; timed waits elapse when nothing else can run (or as a deviation where the scenario says so)']
ENUM_A = ['the enumerated domain (see per_scenario and DESIGN.md) is representative of larger inputs only as far as the small-scope hypothesis goes']

CHECKS['C01'] = dict(
    level='model_checking', technique='exhaustive exploration of all short operation histories on the real persisters against a reference list model, with all read queries over a boundary domain after each history',
    note='real code; every history of the stated length over timestamps 0..3 and default timestamps, in memory and on disk', assumptions=ENUM_A,
    units=[enum('persister', 'C01/persister.cc', 40, 600, q=dict(memory_ops=3, file_ops=3, deeper_ops=4), t=dict(memory_ops=4, file_ops=4, deeper_ops=6), cxx=['-DCURRENT_MOCK_TIME'])])

CHECKS['C02'] = dict(
    level='model_checking', technique='exhaustive exploration of all short operation histories with a close/reopen at every subset of positions on the real file persister, against a reference list model; all listed foreign files',
    note='real code; every history of the stated length', assumptions=ENUM_A,
    units=[enum('reopen', 'C02/reopen.cc', 140, 700, q=dict(ops=3, times=4, full_ops=2, raw_ops=3, raw_times=4), t=dict(ops=4, times=5, full_ops=3, raw_ops=4, raw_times=4), cxx=['-DCURRENT_MOCK_TIME'])])

CHECKS['C03'] = dict(
    level='fault_enumeration', technique='exhaustive crash-point enumeration on the real file persister: every byte prefix of the journal of its file operations for every short history, recovery by the real code, every short continuation, against a reference list model; disk-full faults at every position',
    note='real code; a crash keeps exactly what was handed to the kernel, in order', assumptions=['operations on the file reach the disk in the order they were issued (a process crash, not a reordering disk)'],
    units=[enum('crash', 'C03/crash.cc', 60, 600, q=dict(ops=3, more=2), t=dict(ops=5, more=2), cxx=['-DCURRENT_MOCK_TIME'])])

CHECKS['C04'] = dict(
    level='model_checking', technique='stateless model checking of the real persisters: all thread schedules up to a preemption bound, happens-before race detection, every history checked for linearizability against a list model',
    note='real code, every schedule with at most the stated number of preemptions; 2-3 threads, up to 4 calls', assumptions=SCHED_A,
    units=[sched('persist', 'C04/persist.cc', 3, 70, 5, 800)])

CHECKS['C08'] = dict(
    level='model_checking', technique='exhaustive enumeration of the combinations of the parameters of the subscription over small logs, with all short continuations of the stream and every point at which the connection breaks, on the real stream over a network in memory, against an automaton of the documentation of the parameters',
    note='real code; every combination in the domain', assumptions=ENUM_A,
    units=[enum('subscribe', 'C08/subscribe.cc', 45, 400, cxx=['-DCURRENT_MOCK_TIME', '-DCURRENT_BRICKS_HTTP_DEFAULT_CHUNK_CACHE_SIZE=200'], **FAST),
           sched('live', 'C08/live.cc', 3, 40, 5, 400, cxx=['-DCURRENT_BRICKS_HTTP_DEFAULT_CHUNK_CACHE_SIZE=200'])])

CHECKS['C09'] = dict(
    level='model_checking', technique='stateless model checking of the real follower and the real master over a network in memory: every byte at which a connection breaks, every cut of the stream into chunks, malformed records, and every schedule up to a preemption bound, against the log of the master',
    note='real code; every schedule with at most the stated number of preemptions, with every fault in the domain', assumptions=SCHED_A,
    units=[sched('replicate', 'C09/replicate.cc', 2, 170, 3, 600, delay=1), sched('replicate_file', 'C09/replicate.cc', 2, 95, 3, 600, cxx=['-DVERIF_FILE'], delay=1)])

CHECKS['C13'] = dict(
    level='model_checking', technique='stateless model checking of the real storage: all schedules up to a preemption bound of concurrent transactions, live followers, take-overs and shutdowns; a doubled counter tells the serial order, which must be the order of the log',
    note='real code; every schedule with at most the stated number of preemptions; up to three threads', assumptions=SCHED_A,
    units=[sched('memory', 'C13/concurrent.cc', 2, 30, 3, 400), sched('file', 'C13/concurrent.cc', 2, 45, 3, 400, cxx=['-DVERIF_FILE'])])

CHECKS['C14'] = dict(
    level='model_checking', technique='exhaustive exploration of bounded dialogues with the real REST API over the real HTTP server on a network in memory, every answer, the data and the log compared with a model of the resources',
    note='real code; every dialogue within the bounds', assumptions=ENUM_A,
    units=[enum('rest', 'C14/rest.cc', 240, 700, cxx=['-DCURRENT_MOCK_TIME'], cc='clang++', opt='-O1')])

CHECKS['C15'] = dict(
    level='model_checking', technique='stateless model checking of the real MMQ code: all thread schedules up to a preemption bound, happens-before race detection, FIFO queue oracle',
    note='real code, every schedule with at most the stated number of preemptions; 2-3 publishers, buffers of 1-3 slots', assumptions=SCHED_A,
    units=[sched('mmq', 'C15/mmq.cc', 3, 70, 5, 700)])

CHECKS['C16'] = dict(
    level='model_checking', technique='stateless model checking of the real MMPQ code: all thread schedules up to a preemption bound, happens-before race detection, priority-queue oracle',
    note='real code, every schedule with at most the stated number of preemptions; up to 3 threads, 4 messages', assumptions=SCHED_A,
    units=[sched('mmpq', 'C16/mmpq.cc', 3, 70, 5, 600)])

CHECKS['C17'] = dict(
    level='model_checking', technique='stateless model checking of WaitableAtomic and WaitableTerminateSignal: all thread schedules up to a preemption bound, race and use-after-destruction detection, lost wakeups as deadlocks or as virtual time passing',
    note='real code, every schedule with at most the stated number of preemptions; 2-3 threads', assumptions=SCHED_A,
    units=[sched('waitable', 'C17/waitable.cc', 3, 40, 6, 600)])

CHECKS['C18'] = dict(
    level='model_checking', technique='stateless model checking of Owned/Borrowed under all thread schedules up to a preemption bound with use-after-destruction detection, plus exhaustive sequences of handle operations against a reference model',
    note='real code; up to 3 threads within the preemption bound; all operation sequences of the stated length over 3 handles and 2 owners', assumptions=SCHED_A,
    units=[sched('borrow', 'C18/borrow.cc', 3, 40, 6, 600), enum('ops', 'C18/ops.cc', 40, 300, q=dict(ops=4), t=dict(ops=5))])

CHECKS['C19'] = dict(
    level='model_checking', technique='stateless model checking of the clock and the singletons under all thread schedules up to a preemption bound (frozen, ticking and backward-moving clocks), plus exhaustive operation sequences of the scoped helpers against reference models',
    note='real code; 2-3 threads within the preemption bound; all operation sequences of the stated length for deleters, lazy objects and futures', assumptions=SCHED_A,
    units=[sched('clock', 'C19/clock.cc', 3, 30, 6, 400), enum('scoped', 'C19/scoped.cc', 40, 300, q=dict(ops=4), t=dict(ops=5))])

CHECKS['C05'] = dict(
    level='model_checking', technique='stateless model checking of the real stream and persisters: all thread schedules up to a preemption bound, happens-before race detection, every entry and head update checked against the published log',
    note='real code, every schedule with at most the stated number of preemptions; 1-2 publishers, 1-2 subscribers, 2-3 entries', assumptions=SCHED_A,
    units=[sched('subscribe', 'C05/subscribe.cc', 2, 80, 4, 800)])

CHECKS['C06'] = dict(
    level='model_checking', technique='stateless model checking of the real stream: all thread schedules up to a preemption bound of subscriptions and streams being torn down, with deadlock, data race and use-after-destruction detection',
    note='real code, every schedule with at most the stated number of preemptions; 2-4 threads', assumptions=SCHED_A,
    units=[sched('teardown', 'C06/teardown.cc', 2, 70, 4, 800)])

CHECKS['C07'] = dict(
    level='model_checking', technique='exhaustive sequences of publisher hand-over operations on the real stream against a reference model, plus stateless model checking of concurrent hand-overs under all thread schedules up to a preemption bound',
    note='real code; all operation sequences of the stated length; every schedule with at most the stated number of preemptions', assumptions=SCHED_A,
    units=[enum('publisher', 'C07/publisher.cc', 30, 600, q=dict(ops=5), t=dict(ops=6)), sched('handover', 'C07/handover.cc', 3, 25, 4, 600)])

CHECKS['C10'] = dict(
    level='model_checking', technique='exhaustive exploration of all operation sequences up to a depth on the real containers of every kind against a plain-map model, every read compared after every operation',
    note='real code; every operation sequence of the stated length over 2x2 and 3x3 keys, in one transaction and in one transaction each', assumptions=ENUM_A,
    units=[enum('containers', 'C10/containers.cc', 50, 700, q=dict(ops22=4, ops33=3), t=dict(ops22=6, ops33=5), cxx=['-DCURRENT_MOCK_TIME'])])

CHECKS['C11'] = dict(
    level='model_checking', technique='exhaustive exploration of all transaction bodies up to a depth from every state reachable by a short prefix, on the real containers and the real storage, with every way to end the transaction, against a plain-map model and the log',
    note='real code; every sequence of the stated length for every container kind', assumptions=ENUM_A,
    units=[enum('rollback', 'C11/rollback.cc', 30, 400, q=dict(prefix=2, body=2, after=1), t=dict(prefix=3, body=2, after=1), cxx=['-DCURRENT_MOCK_TIME']),
           enum('transactions', 'C11/transactions.cc', 60, 400, q=dict(prefix=1, body=2), t=dict(prefix=2, body=2), cxx=['-DCURRENT_MOCK_TIME'], **FAST)])

CHECKS['C12'] = dict(
    level='model_checking', technique='exhaustive exploration of all short operation and transaction histories, rebuilding the real containers and storages from what was logged at every position (replay, reopening from disk, live followers, take-over by a follower), against a plain-map model',
    note='real code; every history of the stated length for every container kind', assumptions=ENUM_A,
    units=[enum('replay', 'C12/replay.cc', 25, 400, q=dict(ops22=4, ops33=3), t=dict(ops22=5, ops33=4), cxx=['-DCURRENT_MOCK_TIME']),
           enum('storage', 'C12/storage.cc', 60, 400, q=dict(transactions=2), t=dict(transactions=2), cxx=['-DCURRENT_MOCK_TIME'], **FAST)])

CHECKS['C20'] = dict(
    level='model_checking', technique='stateless model checking of real RipCurrent flows of various shapes: all schedules up to a preemption bound; every block logs what it was given',
    note='real code; every schedule with at most the stated number of preemptions; up to four threads', assumptions=SCHED_A,
    units=[sched('flows', 'C20/flows.cc', 2, 80, 3, 800)])

CHECKS['C25'] = dict(
    level='exploration', technique='exhaustive enumeration of the values of a family of nested types in all dialects on the real code, every text also read by an independent model decoder; all doubles exponents, all short strings, all partial patches',
    note='real code; every value of the family within the stated bounds', assumptions=ENUM_A,
    rule='a case is one value (or one pair of values and a field mask for patches) serialized, decoded by the model, parsed back and serialized again in the applicable dialects',
    units=[enum(n, 'C25/roundtrip.cc', 25, 300, cxx=['-DPART=%d' % i], **FAST) for i, n in enumerate(['primitives', 'containers', 'sums', 'patch'])])

CHECKS['C26'] = dict(
    level='exploration', technique='exhaustive enumeration of all the prefixes, single-byte edits over a token alphabet, and single structural edits (pairs in the thorough tier) of the serializations of small values of a family of types in all dialects, under address and undefined behaviour sanitizers, against an independent model decoder',
    note='real code; every edit of every base text', assumptions=ENUM_A,
    rule='a case is one edited text given to the real parser for one type and dialect',
    units=[enum(n, 'C26/malformed.cc', 45 if n == 'sums' else 25, 300, cxx=['-DPART=%d' % i], san='address,undefined', **FAST) for i, n in enumerate(['scalars', 'containers', 'sums'])])

CHECKS['C24'] = dict(
    level='exploration', technique='exhaustive enumeration of URL components, of all combinations of URL parts, query strings, redirects and partially filled objects on the real code, against an independent model',
    note='real code; every combination of the listed parts, every string of the stated length', assumptions=ENUM_A,
    rule='a case is one string, URL, pair of URLs, or query to fill an object from',
    units=[enum('url', 'C24/url.cc', 60, 500, **FAST)])
CHECKS['C29'] = dict(
    level='exploration', technique='exhaustive enumeration of all small expressions, straight-line programs, recording histories and optimization tasks on the real code: the recorded, differentiated and compiled forms against plain C++ and forward-mode derivatives',
    note='real code; every expression of the stated size over two variables and five constants, at six points', assumptions=ENUM_A,
    units=[enum('fncas', 'C29/fncas.cc', 120, 700, q=dict(size=3, leaves=6, steps=3, history=8), t=dict(size=3, leaves=5, steps=4, history=10), cc='clang++', opt='-O1')])

CHECKS['C30'] = dict(
    level='exploration', technique='exhaustive enumeration of all strings up to a length over an alphabet of separators, zero and non-ASCII bytes, of all ways to cut them, and of numbers, on the real code, against the definitions',
    note='real code; every string of the stated length, every cut, every byte pair', assumptions=ENUM_A,
    rule='a case is one string (with separators and a policy), one way to feed it, one number, or one pair of strings',
    units=[enum("strings", "C30/strings.cc", 60, 600, q=dict(split_length=5, kv_length=7, base64_length=7, base64_step=3, base64_malformed=5, trim_length=5, escape_length=5, chunk_length=4, distance_length=5), t=dict(split_length=6, kv_length=8, lines_length=6, base64_length=9, base64_step=1, base64_malformed=6, trim_length=6, escape_length=6, chunk_length=5, distance_length=6), **FAST),
           enum('regex', 'C30/regex.cc', 60, 300, t=dict(regex_pieces=4), **FAST)])
CHECKS["C27"] = dict(
    level="exploration", technique="exhaustive enumeration of a generated family of types (every leaf, every container nested two deep, templates, inheritance, cycles, every order of first reflection) on the real reflector, type IDs and schema exporters, against an independent description of these types",
    note="real code; every type of the family, every order, every language", assumptions=ENUM_A,
    rule="a case is one type of the family, one order of reflecting on the cyclic ones, or one exported schema; the synthetic scenario counts hashed types",
    units=[enum("reflection", "C27/reflection.cc", 60, 300, q=dict(order=4), t=dict(order=6, pairs=80), **FAST)])
CHECKS['C28'] = dict(
    level='model_checking', technique='exhaustive exploration of all short operation sequences on variants and optionals (same, overlapping and nested case lists, PODs and objects, aliased and self operations) on the real code against a plain model, with live-object counting; all small values evolved through every generic evolver',
    note='real code; every operation sequence of the stated length', assumptions=ENUM_A,
    units=[enum('variants', 'C28/variants.cc', 30, 500, q=dict(depth=3, nested_depth=4), t=dict(depth=4, nested_depth=5), **FAST),
           enum('optionals', 'C28/optionals.cc', 30, 400, q=dict(depth=3), t=dict(depth=4), san='address,undefined', **FAST),
           enum('evolution', 'C28/evolution.cc', 30, 300, **FAST)])
CHECKS['C31'] = dict(
    level='exploration', technique='exhaustive enumeration of small tables, texts, sets of JSON samples and edit histories on the real code, against independent definitions of the formats',
    note='real code; every table, text, set of samples and history of the stated size', assumptions=ENUM_A,
    rule='a case is one table, one text, one set of JSON samples or one edit history',
    units=[enum('formats', 'C31/formats.cc', 60, 600, t=dict(tsv_rows1=5, tsv_rows2=3, tsv_rows3=2, tsv_repeat_rows=6, csv_length=8, infer_nodes=7, infer_objects=4, infer_names=3, ot_ops=3, ot_edits=6), **FAST)])
CHECKS['C34'] = dict(
    level='model_checking', technique='exhaustive enumeration of small directory trees (with links, filters, every point to stop at, every removal failing) and of sequences of operations on files, replayed on the real code in a scratch directory against a model of the tree',
    note='real code on the real file system; the two destructive calls go through stand-ins confined to the scratch directory', assumptions=ENUM_A,
    units=[enum('files', 'C34/files.cc', 60, 600, t=dict(scan_nodes=5, rm_nodes=5, depth=4, name_length=5), **FAST)])
CHECKS['C35'] = dict(
    level='exploration', technique='exhaustive enumeration of days, of seconds around the ends of months, years and 32 bits, of time zones and their changes, of damaged dates and of intervals, on the real code, against an independent calendar',
    note='real code; every day of 200 years, every second of four (all) hours of eleven days', assumptions=ENUM_A,
    rule='a case is one moment in one time zone, formatted and read in all the formats, or one text',
    units=[enum('dates', 'C35/dates.cc', 60, 600, t=dict(years=230), **FAST)])
CHECKS['C37'] = dict(
    level='exploration', technique='exhaustive enumeration of requests, of chains of redirects, of chunked responses with every set and order of callbacks, and of responses cut short, on the real client over a network in memory with scripted peers',
    note='real code; every request of the alphabet, every chain of up to three redirects', assumptions=ENUM_A,
    rule='a case is one request with its response, one chain of redirects, or one chunked response',
    units=[enum('client', 'C37/client.cc', 150, 600, t=dict(hops=3, chunks=4), opt='-O1', cc='clang++')])
CHECKS['C36'] = dict(
    level='exploration', technique='exhaustive enumeration of small JSON values and edits, graphs, Nginx configs and HTML pages (with an exception at every point) on the real code, read back by independent parsers',
    note='real code; every document of the stated size', assumptions=ENUM_A,
    rule='a case is one document, or one history of edits of one',
    units=[enum('documents', 'C36/documents.cc', 110, 600, t=dict(json_nodes=5, json_pieces=6, object_edits=5, dot_nodes=3, dot_edges=3, nginx_nodes=5, nginx_steps=6, html_nodes=5), **FAST)])
CHECKS['C33'] = dict(
    level='fault_enumeration', technique='exhaustive enumeration of all short command lines and flag values against an independent model of the documentation; all short histories of a self-modifying config with a crash at every file operation and byte, and with every write refused, on the real code',
    note='real code; every command line of up to 3 (4) arguments of the alphabet; every crash point of every history', assumptions=ENUM_A,
    rule='a case is one command line, one value of one type, one history of a config, or one crash point of it',
    units=[enum('dflags', 'C33/dflags.cc', 30, 300, t=dict(args=4), **FAST), enum('config', 'C33/config.cc', 30, 200, t=dict(operations=5), cxx=['-DCURRENT_MOCK_TIME'], **FAST)])
CHECKS['C21'] = dict(
    level='exploration', technique='exhaustive enumeration of messages, of the cuts of their bytes into segments, of buffer sizes, truncations, single byte edits and malformed framing, against the message as composed and an independent reference parser, on the real parser, server and client over a network in memory',
    note='real code over a scripted network; every cut into two segments of every message, every cut into three of the short ones', assumptions=ENUM_A,
    rule='a case is one message delivered in one way',
    units=[enum('parse', 'C21/parse.cc', 60, 600, t=dict(pairs=300), cxx=['-DCURRENT_MAX_HTTP_PAYLOAD=1000'], opt='-O1', cc='clang++')])
CHECKS['C22'] = dict(
    level='exploration', technique='exhaustive enumeration of response shapes, of sequences of chunks around the sizes of the cache, and of operation sequences on the connection and on the headers, on the real server connection, decoded by an independent reader and by the real client over a network in memory',
    note='real code on both ends', assumptions=ENUM_A,
    rule='a case is one response, one sequence of chunks, or one sequence of operations',
    units=[enum('respond', 'C22/respond.cc', 60, 600, q=dict(chunks=4, operations=6), t=dict(chunks=5, operations=8, header_operations=5), opt='-O1', cc='clang++')])
CHECKS['C23'] = dict(
    level='model_checking', technique='exhaustive enumeration of histories of registrations, updates and unregistrations of nested routes against a model of the table, probed through the real server over a network in memory; exploration of the interleavings of requests with unregistration under the controlled scheduler',
    note='real code; every history up to the depth, every interleaving within the preemption bound', assumptions=SCHED_A + ENUM_A,
    units=[enum('routes', 'C23/routes.cc', 40, 400, q=dict(depth=3), t=dict(depth=4, scope_operations=5), opt='-O1', cc='clang++'),
           sched('live', 'C23/live.cc', 3, 25, 7, 400)])
CHECKS['C32'] = dict(
    level='model_checking', technique='exhaustive exploration of bounded histories of the fleet on the real Karl over a network in memory and a virtual clock against a model of the fleet, and of the schedules of its threads and of those of the real Claire up to a bound',
    note='real code; every history up to the depth; every schedule with at most the stated number of delays', assumptions=SCHED_A,
    units=[sched('karl', 'C32/karl.cc', 1, 150, 2, 600, delay=1),
           sched('preempt', 'C32/preempt.cc', 1, 90, 2, 600)])

CHECKS['C39'] = dict(
    level='model_checking', technique='exhaustive enumeration of the requests of a family on the real event collection server over a network in memory against a model of what is to be logged; exploration of the schedules of its timer, of requests and of its destruction under the controlled scheduler',
    note='real code; every request of the family; every schedule with at most the stated number of preemptions', assumptions=SCHED_A + ENUM_A,
    units=[enum('collect', 'C39/collect.cc', 60, 300, opt='-O1', cc='clang++'),
           sched('ticks', 'C39/ticks.cc', 2, 60, 4, 400)])

CHECKS['C38'] = dict(
    level='exploration', technique='exhaustive enumeration of all short queries by a family of schemas composed with all the operators to the depth of three on the real code, against a list-based evaluator of schemas',
    note='real code; every query of up to the stated number of terms by every schema of the family', assumptions=ENUM_A,
    rule='a case is one query matched against all the schemas of the family',
    units=[enum('nlp', 'C38/nlp.cc', 60, 300, q=dict(terms=4, deep_terms=4), t=dict(terms=5, deep_terms=5), opt='-O0', cc='clang++')])
