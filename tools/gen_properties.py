#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

MSG = ["pkg/pg/%s_message.go" % n for n in ("authentication_request backend_key_data command_complete data_row "
  "empty_query_response error_response generic negotiate_protocol_version notice_response parameter_status password query "
  "ready_for_query row_description startup terminate").split()]

prop("W01", "Message layouts match the PostgreSQL v3 protocol, both ways",
 "For every supported message type the decoder consumes exactly the fields the PostgreSQL v3 protocol lays out, in that order and width, and stores each one unchanged in the message field of that meaning; the encoder writes exactly the same layout from the same fields, with the same counts, terminators and NULL-versus-empty distinction. Decoding a well-formed message and encoding it again therefore reproduces its body byte for byte. The named codes of error fields, transaction states and data formats are those of the protocol.",
 ["inputs"], "every well-formed body of every supported message type, any number of columns, fields, options or parameters, any value incl. empty and NULL",
 "The tests hold one golden packet per type (some types none); nothing samples zero or many repetitions, NULL next to empty, negative numbers, unusual options.",
 MSG, [("ParseXxxMessage / XxxMessage.Frame pairs", "pkg/pg/*_message.go")], observe=["bytes written to the peer", "exported message fields"])

prop("W02", "Buffer primitives read and write exactly their wire encoding",
 "Integers are read and written as big-endian two's complement of exactly their declared width, strings as their bytes followed by one zero byte, byte runs verbatim, and arrays as that many consecutive integers. A successful read returns exactly the next bytes of the buffer and advances past exactly those bytes; a failed read returns an error and leaves the buffer where it was; a write only appends. No call panics, whatever length it asks for.",
 ["inputs"], "every buffer content and length, every requested count (also negative and overflowing), every value",
 "The tests call each primitive with one or two values; boundary lengths, sign bits, negative counts and the not-advanced-on-error clause of every primitive are not covered.",
 ["pkg/pg/read_buffer.go", "pkg/pg/write_buffer.go"], [("ReadBuffer / WriteBuffer methods", "pkg/pg/read_buffer.go, pkg/pg/write_buffer.go")], observe=["return values and remaining length of the exported buffer types"])

prop("W03", "Frames are delimited exactly by their length field",
 "Reading a frame takes from the stream exactly the header and as many further bytes as the header's big-endian length announces (the length counts itself but not the type byte), and returns precisely those bytes; a length too small to cover itself is refused with an error and a short read is an error. Building a frame writes the type byte (none for a startup frame), the body length plus four, and the body.",
 ["inputs"], "every byte stream, split into reads arbitrarily; every announced length including negative and under-sized ones; every body",
 "Tests read one well-formed frame per kind; a wrong boundary only shows with several frames on a stream or with hostile lengths.",
 ["pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go"], [("ReadStandardFrame, ReadStartupFrame, NewStandardFrame, NewStartupFrame and the accessors", "pkg/pg/standard_frame.go, pkg/pg/startup_frame.go")], observe=["position of the stream after a read", "returned frame bytes"])

prop("W04", "Every message is decoded as its own type for its own direction",
 "A message received from a peer is decoded with the decoder of the message type that the type byte denotes for that sender (client or database), whose encoder emits that same type byte; a decoder refuses a frame carrying another type byte. Message types the proxy does not know for that sender are carried through with type and body unchanged, and every well-formed message of either sender is accepted.",
 ["inputs"], "all 256 type bytes in both directions, all authentication codes",
 "Tests receive a single generic message; no test goes through the dispatch of a real type, and none exercises the type bytes that mean different things for client and server.",
 ["pkg/pg/conn.go"] + MSG, [("type-byte dispatch of the connection's receive functions", "pkg/pg/conn.go"), ("type assertion at the head of each decoder", "pkg/pg/*_message.go"), ("auth status table", "pkg/pg/authentication_request_message.go")], observe=["concrete type and bytes of the message relayed"])

prop("W05", "No input from client or database can crash the process",
 "Whatever bytes a client or a database sends, and at whatever point it stops sending, handling them never panics and never recurses without bound: every index, slice, allocation size, type assertion, nil dereference and map write reachable while serving a session is within its safe range. A malformed message costs at most its own session.",
 ["inputs"], "all byte sequences from either peer",
 "Tests feed well-formed packets only; hostile counts and lengths are outside what they sample, and there is no fuzzing.",
 ["pkg/pg/read_buffer.go", "pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go", "pkg/server/session.go"] + MSG, [("bounds checks of the read buffer, the frame readers and the decoders", "pkg/pg"), ("handshake loop", "pkg/server/session.go")], observe=["process stays alive"])

prop("W06", "Memory claimed for a message is bounded by the bytes received",
 "While decoding, the proxy never allocates storage whose size is taken from a peer-supplied number unless that number is first bounded by a small fixed limit or by the amount of data actually received. Bytes of a frame are buffered only as they arrive, never reserved from the announced length.",
 ["inputs"], "all counts and lengths a peer can announce",
 "Tests only send truthful small counts; an allocation bomb needs a lying count.",
 ["pkg/pg/negotiate_protocol_version_message.go", "pkg/pg/data_row_message.go", "pkg/pg/row_description_message.go", "pkg/pg/read_buffer.go", "pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go"], [("size checks ahead of make and Grow", "pkg/pg")], observe=["allocation size"])

prop("W07", "A failed read or decode is always reported, never half-used",
 "Whenever reading or decoding any part of a frame, message, connection URI or config file fails, the operation as a whole returns a non-nil error and no usable result; success is returned only if every step it performed succeeded. No decode or I/O error is dropped, overwritten before being looked at, or turned into success.",
 ["inputs", "fault_sequences"], "every point at which the input can end or be malformed, every I/O error",
 "Tests cover one failing read per primitive; each decoder has several failure exits that no test takes.",
 ["pkg/pg", "pkg/cli/read_server_config.go", "pkg/pgmeta/inspector.go", "pkg/server/session.go"], [("error returns after every fallible step", "pkg/pg/*.go, pkg/cli, pkg/pgmeta, pkg/server")], observe=["error results"])

prop("S01", "Only the configured database is ever reached",
 "The proxy opens a connection towards the database only after it has received a startup packet of the supported protocol version whose effective database name (the last one given, as the server reads it) equals the configured database; in every other case it contacts nothing and ends the session with an error. The address contacted is the host and port of the current configuration; a configuration whose database address cannot be understood allows no database.",
 ["inputs", "configurations"], "every startup packet (repeated, missing, reordered parameters; SSL requests in front), every configuration",
 "No test drives the session handshake at all.",
 ["pkg/server/session.go", "pkg/pg/startup_message.go"], [("protocol and database checks ahead of the dial", "pkg/server/session.go negotiateSessionParams, establishDBConnection"), ("parameter lookup", "pkg/pg/startup_message.go GetParameter")], observe=["outgoing connections"])

prop("S02", "The handshake is answered and forwarded in protocol order",
 "Each SSL request is answered with exactly the single byte 'N' and followed by reading the next startup packet, and nothing else is written to the client before the database connection exists. The first thing sent to the database is the client's own accepted startup packet, unchanged, and relaying starts only after that was sent successfully.",
 ["inputs", "histories"], "every sequence of startup and SSL packets",
 "No test covers the handshake.",
 ["pkg/server/session.go"], [("negotiateSessionParams, establishDBConnection, Start", "pkg/server/session.go")], observe=["bytes on both connections before relaying"])

prop("S03", "Every message is relayed once, in order, unmodified, to the other side",
 "Every message read from the client is sent to the database, and every message read from the database is sent to the client, exactly once, in the order received and with the content decoded; nothing is sent back to its sender, duplicated, reordered, skipped or invented while the session is open. Messages already received when one side hangs up are still delivered to the other side before the session is torn down.",
 ["histories", "schedules"], "all message sequences, all interleavings of the session goroutines, up to session end",
 "No test relays a single message end to end.",
 ["pkg/server/session.go", "pkg/pg/conn.go"], [("the pumps, the processing loops and the four channels between them", "pkg/server/session.go")], observe=["messages written to each connection"])

prop("S04", "A stalled direction never blocks the other direction",
 "Inside the proxy, forwarding from client to database never waits for progress of forwarding from database to client, nor the other way round: the step that relays one direction does no blocking operation on the queues or connections of the other direction. A client that reads its results can therefore always be served while the database is slow to accept more input.",
 ["schedules", "histories"], "all interleavings, all queue fill levels",
 "Needs full queues in one direction under load; no test relays at all.",
 ["pkg/server/session.go"], [("separate goroutine chains per direction", "pkg/server/session.go")], observe=["progress of one direction while the other one is blocked"])

prop("S05", "A session ends completely when either side hangs up or fails",
 "When the client or the database hangs up, or any read or write on either connection fails, both connections are closed, every goroutine of the session ends, and the session's blocking call returns. This also holds for a failed handshake. Until then the session stays open, and closing it never panics.",
 ["schedules", "fault_sequences", "histories"], "hang-up or error at any point of the session on either side",
 "No test ends a running session from the network side; leaks need a peer that goes away at the right time.",
 ["pkg/server/session.go"], [("pump exits, channel closing by the sender, deferred Close", "pkg/server/session.go")], observe=["connections closed, goroutines gone"])

prop("S06", "No schedule sends on or closes an already closed channel",
 "In every interleaving of traffic, hang-ups, configuration changes, unsubscription and Close calls, no goroutine ever sends on a closed channel or closes one twice, so none of these events can panic the process.",
 ["schedules"], "all interleavings of senders and closers of every channel in the program",
 "A panic needs a send to overlap with a close; tests close only idle sessions.",
 ["pkg/server/session.go", "pkg/server/server.go", "pkg/server/config_distributor.go", "pkg/server/event.go", "pkg/cli/file_watcher.go"], [("channels are closed by their only sender, after its last send, at most once", "pkg/server")], observe=["process stays alive"])

prop("S07", "Closing a session or server releases everything blocked on its behalf",
 "Every operation a session or server goroutine can block in (network I/O, dialling, waiting for a configuration, queue operations) is interrupted once the session respectively server is closed, so that Close makes all these goroutines finish without help from the peer.",
 ["schedules"], "Close at any moment relative to any blocking step",
 "Tests close a session only while it waits for its very first packet.",
 ["pkg/server/session.go", "pkg/server/server.go", "pkg/server/config_distributor.go"], [("closed events in selects, connections closed by Close, cancellable dial", "pkg/server")], observe=["goroutines gone after Close"])

prop("S08", "Every connection and listener opened or accepted is eventually closed",
 "Each accepted client connection, each connection dialled to the database, each listener opened and each metadata database handle is, on every path including refusals and errors, either closed or handed over to an owner whose Close closes it.",
 ["fault_sequences", "schedules"], "every path from acquisition to exit, including closing races",
 "Leaks are invisible to the tests' assertions, and the error paths are not taken.",
 ["pkg/server/server.go", "pkg/server/session.go", "pkg/pgmeta/inspector.go", "pkg/cli/file_watcher.go"], [("close-or-hand-over after Accept, Listen, Dial, sql.Open, NewWatcher", "pkg/server, pkg/pgmeta, pkg/cli")], observe=["open descriptors"])

prop("V01", "After Close nothing new can be registered or started",
 "Once Close of a server, session or configuration distributor has taken effect, starting, serving, serving a connection, subscribing and fetching a configuration are refused with the respective 'closed' error, and no listener, session, subscription, database connection or tracked goroutine that Close did not see can be added afterwards, however the calls interleave.",
 ["schedules", "histories"], "all interleavings of Close with the other operations",
 "Tests call the operations strictly before or strictly after Close; the window between check and registration is never hit.",
 ["pkg/server/server.go", "pkg/server/session.go", "pkg/server/config_distributor.go"], [("closed check and registration in one critical section", "registerSession, changeListener, do, Subscribe, establishDBConnection")], observe=["returned errors", "resources left after Close"])

prop("V02", "Server Close tears everything down and waits for it",
 "The first Close of a server closes its current listener and every active session, and returns only after all goroutines the server started have finished; it returns the listener's close error, and later Close calls do nothing. Every goroutine a server starts is tracked for that wait, and every session served is tracked from before its start until after its end, and forgotten then; registering one session never drops another, and closing never panics.",
 ["schedules", "histories"], "any number of sessions and listeners, any moment",
 "Tests close a server with one idle session.",
 ["pkg/server/server.go"], [("Close, do, registerSession, removeSession", "pkg/server/server.go")], observe=["sessions and listener after Close"])

prop("V03", "One client can neither stop nor block the accept loop",
 "Every accepted connection is served in a goroutine of its own; the accept loop does nothing on behalf of a client between two accepts, no session outcome influences it, a temporary accept error only leads to the next accept, and it ends only on a permanent accept error or shutdown. A failing session ends neither the server nor another session: nothing done to serve a connection can panic, whatever the client, the database, the configuration and a concurrent Close do. A connection is turned away only because the server is closed.",
 ["fault_sequences", "schedules"], "any client behaviour, any sequence of accept errors",
 "The test accepts one connection; no accept error is ever produced.",
 ["pkg/server/server.go"], [("Serve's accept loop", "pkg/server/server.go")], observe=["further clients are accepted"])

prop("V04", "The server listens where the latest usable configuration says",
 "When the configured listen address changes the server opens the new address first, and only if that succeeds replaces and closes the previous listener; a failure is logged and the previous listener stays in service. Changes take effect in the order they arrive, so that the listener in service belongs to the latest address that could be opened. The server follows the configuration at most once, on a live subscription: a second start, a failed subscription and the end by Close all return an error. The function that runs the proxy serves the configurations it is given with neither server nor distributor closed beforehand, and leaves none of them open.",
 ["histories", "schedules", "fault_sequences"], "all sequences of configurations, also in quick succession and with addresses that cannot be opened",
 "The test changes the address once, waits for the result, and never uses a bad address.",
 ["pkg/server/server.go"], [("Start's configuration loop and changeListener", "pkg/server/server.go")], observe=["address in service"])

prop("K01", "Subscribers get the current configuration and every relevant change",
 "A new subscriber is handed the current configuration at once, if there is one that its checks let through, compared with none; afterwards each configuration received is recorded as current before being announced, and is delivered to every subscriber that registered no checks or one of whose checks returns true for (previous, new), and to no other. Fetching the configuration returns the current one, or waits for the first.",
 ["histories", "schedules", "configurations"], "all sequences of configurations and subscriptions, all check functions",
 "Tests use two subscribers and three configurations in one order.",
 ["pkg/server/config_distributor.go"], [("monitorConfig, notify, Subscribe, Get", "pkg/server/config_distributor.go")], observe=["values received on subscribed channels"])

prop("K02", "No delivery after Unsubscribe or Close returns",
 "Once Unsubscribe for a channel, or the first Close of the distributor, has returned, nothing is sent on that channel any more and its owner may close it; callers waiting for a configuration are released with the closed error by Close; when the configuration source ends, the distributor closes itself. Unsubscribing a channel that is not subscribed, and closing twice, are harmless: no operation of the distributor panics, and its goroutine ends with it.",
 ["schedules"], "all interleavings of delivery with Unsubscribe and Close",
 "The test unsubscribes while nothing is being delivered.",
 ["pkg/server/config_distributor.go", "pkg/server/server.go"], [("Unsubscribe, Close, monitorConfig, Get", "pkg/server/config_distributor.go")], observe=["sends on subscriber channels"])

prop("K03", "No goroutine waits indefinitely while holding a lock others need",
 "While any lock is held, no operation is performed that can wait for another goroutine, a peer or a subscriber without being interruptible by the corresponding unsubscribe or close, and locks are never acquired in conflicting orders or re-acquired by their holder. A slow or vanished subscriber or peer therefore cannot freeze Get, Subscribe, Unsubscribe or Close.",
 ["schedules"], "all interleavings, all subscriber and peer behaviours",
 "A deadlock needs two updates in quick succession around a waiting Get, or a stalled subscriber.",
 ["pkg/server/config_distributor.go", "pkg/server/server.go", "pkg/server/session.go"], [("critical sections of all mutexes", "pkg/server")], observe=["calls return"])

prop("L01", "Shared mutable state is only touched under its lock",
 "Every field and variable that is written after its owner became visible to more than one goroutine is read and written only with one and the same lock held (exclusively for writes), through an atomic operation, or ordered by channel, event or wait-group synchronisation. Every lock acquired is released on every path.",
 ["schedules"], "all interleavings of the program's goroutines",
 "Race detection only sees executed interleavings, and the suite is not run with it.",
 ["pkg/server", "pkg/cli/file_watcher.go"], [("mutexes of the server, session and distributor; initialisation before publication", "pkg/server, pkg/cli")], observe=["data races"])

prop("E01", "Events are one-shot, latched and race-free",
 "Firing an event any number of times, concurrently, succeeds for exactly one caller; from then on the event reports having fired, its done channel is closed, and neither ever reverts; before the first firing it reports not fired and its channel is open.",
 ["schedules", "histories"], "all interleavings of any number of callers",
 "The test fires twice from one goroutine.",
 ["pkg/server/event.go"], [("Event", "pkg/server/event.go")], observe=["Fire, HasFired, Done"])

prop("G01", "A configuration that failed to load or lacks its address never takes effect",
 "A configuration file that cannot be read or parsed, or that does not set the listen address, is never handed to the server: at start-up the program reports it and exits with failure without starting the server, and on a later change it is logged and the configuration in force stays. The server starts with exactly the configuration read from the requested file.",
 ["inputs", "histories", "fault_sequences"], "all file contents, including files seen half-written",
 "Tests load one good file and one missing file; a bad reload or an empty file is not covered.",
 ["pkg/cli/cli.go", "pkg/cli/read_server_config.go", "pkg/cli/watch_server_config.go"], [("readServerConfig, prepareConfigChan, watchServerConfig", "pkg/cli")], observe=["configurations on the channel given to the server"])

prop("G02", "Every write to the configuration file leads to a reload",
 "While the program runs, each notification, from the moment the watch stands, that the watched configuration file was written causes exactly one reload of that same file and, if it loads, exactly one publication to the server, in the order of the notifications; neither a failing reload nor other kinds of file events stop the watching. A watch that cannot be established is reported to the caller and leaves nothing running.",
 ["histories", "schedules", "fault_sequences"], "all sequences of file events",
 "Tests observe one write event.",
 ["pkg/cli/file_watcher.go", "pkg/cli/watch_server_config.go"], [("event loop of the file watcher and its write callback", "pkg/cli")], observe=["configurations on the channel"])

prop("M01", "The exit code and error output tell the truth",
 "The command line returns 0 exactly when help or version was asked for or the server ended without error, and 1 in every other case, after writing the reason to standard error; the server is started exactly once and only when neither help nor version was asked for and arguments and configuration were valid.",
 ["inputs", "fault_sequences"], "all argument lists, all failures of parsing, loading and serving",
 "Tests cover five argument lists.",
 ["pkg/cli/cli.go", "pkg/cli/run.go", "main.go"], [("cli.Run", "pkg/cli/cli.go")], observe=["exit code, standard error, server start"])

prop("M02", "Only the program's entry point terminates the process",
 "No code outside the program's entry point exits the process, directly or through a fatal log call, and none panics deliberately except for the documented shutdown watchdog and impossible internal type mismatches. The PostgreSQL client driver is loaded by the metadata package alone.",
 ["programs"], "every call site of every package of the program",
 "Tests cannot show the absence of calls on paths they do not take.",
 ["main.go", "pkg"], [("'THE ONLY PLACE where we exit'", "main.go"), ("'the only place where we use PG driver'", "pkg/pgmeta/inspector.go")], observe=["process exit"])

prop("D01", "Connection URIs are translated completely, with overrides and defaults",
 "A database URI with the scheme postgres or postgresql yields the host, port, user, password and database it names, percent-decoded, with a query parameter of the same name taking precedence, and any other scheme or an unparsable URI yields an error. What is missing defaults to host localhost, port 5432, the operating-system user as user, and the user as database.",
 ["inputs"], "all URIs",
 "Tests use a handful of URIs.",
 ["pkg/pg/dsn.go"], [("ParseDatabaseURI, defaultConnectionSettings", "pkg/pg/dsn.go")], observe=["returned parameters"])

prop("Q01", "Metadata inspection is read-only and complete or failed",
 "The metadata inspector only issues constant read-only queries, returns the full result of a query or an error (never a truncated mapping), maps each object id to the schema and name of its own row, releases the result set on every path, and gives out a handle only if the database asked for answered. Neither a failed call's result nor a released result set is ever used.",
 ["inputs", "fault_sequences"], "all database contents, a connection lost at any row",
 "Needs a live database failing in mid-result; the package's tests do not even run here.",
 ["pkg/pgmeta/inspector.go"], [("Inspect, DatabaseName, OIDTableMapping, Close", "pkg/pgmeta/inspector.go")], observe=["returned mapping and errors, statements sent"])

prop("X01", "Passwords, row data and message contents are never logged",
 "Nothing a client or database transmits inside messages (queries, passwords, row values, error texts) and no database credential from the configuration is ever written to the log or to the program's output streams, at any log level.",
 ["inputs", "configurations"], "all traffic, all configurations, all log levels",
 "No test looks at log output during traffic.",
 ["pkg/server/session.go", "pkg/server/server.go", "pkg/cli"], [("log calls", "pkg/server, pkg/cli")], observe=["log output"])

# ---- not decided by static analysis (not_applicable in MANIFEST.json)
prop("N01", "A stalled peer is eventually disconnected or served",
 "Every session makes progress or ends within bounded time whatever the peers and the network do.",
 ["schedules", "fault_sequences"], "all peer timings",
 "Needs unbounded time and hostile peers.",
 ["pkg/server/session.go"], [("none: no deadlines are set", "pkg/server/session.go")], observe=["session duration"])
prop("N02", "The object-id mapping equals the database catalogue",
 "The mapping returned by the metadata inspector contains exactly the user tables, views and materialised views of the inspected database at the time of the query.",
 ["inputs"], "all database contents",
 "Depends on the evaluation of an SQL query by a PostgreSQL server.",
 ["pkg/pgmeta/inspector.go"], [("catalogue query", "pkg/pgmeta/inspector.go")], observe=["returned mapping"])
prop("N03", "Replacing the configuration file by rename is noticed",
 "A configuration file that is replaced atomically (written elsewhere and renamed over the old one) is reloaded like one that is written in place, again and again.",
 ["histories"], "all ways editors and deployment tools replace a file",
 "Tests only write in place; what the kernel and the notification library report for a rename is outside the repository's code.",
 ["pkg/cli/file_watcher.go"], [("watch on the file's inode", "pkg/cli/file_watcher.go")], observe=["reload after rename"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
for p in P: assert len(p["title"]) <= 80, p["title"]
