BASE = " Static: decided from the source of every run, nothing is executed. Trusts the Go type checker and SSA builder, the models of library calls in analyzer/models.go, and the soundness of the abstract interpreter."
CLAIMS = {
 "W07": ("path-sensitive error-fate automaton (typestate of every error value)", "Every path of every exported fallible operation of pkg/pg and of the config reader; each fallible callee's error is followed to the return."+BASE),
 "W01": ("abstract interpretation of encoders and decoders against a grammar automaton per message", "Every path of every message parser and Frame method, compared as a stream transducer with the protocol's field tables (layout, counts, element loops, NULL marker, terminators)."+BASE),
 "W02": ("abstract interpretation with relational length domain; byte-level provenance of results", "Every path of each ReadBuffer and WriteBuffer primitive: bytes consumed, value composed, bytes appended, buffer on failure."+BASE),
 "W03": ("abstract interpretation of frame readers and writers; byte provenance", "Every path of frame reading and writing: amounts requested, length checks, bytes returned or emitted."+BASE),
 "W04": ("abstract interpretation of the dispatch per type byte and direction", "Every type byte for each direction through RecvMessage-style dispatch, the decoders' own type check, and unconditional acceptance of the protocol's types."+BASE),
 "W05": ("safety obligations discharged in a relational abstract domain; recursion check on the call graph", "Every index, slice, make, conversion, assertion, dereference and explicit panic in functions reachable from the session and decoder entry points."+BASE),
 "W06": ("allocation-size taint with relational bounds", "Every allocation or reservation in functions reachable from decoding."+BASE),
 "E01": ("path-sensitive property automaton over SSA (once-guard typestate)", "All paths of Event's methods and every other use of its fields."+BASE),
 "M01": ("path-sensitive property automaton over the command-line entry points", "All paths of cli.Run and what it calls: return code against what was printed and whether the server was started."+BASE),
 "M02": ("who-may-call rules over the type-checked program", "Every call site of the program, by resolved callee."+BASE),
 "S02": ("path-sensitive property automaton over the handshake", "All paths of Session.Start with helpers inlined: bytes written to the client per SSL request, first send to the database and its provenance."+BASE),
 "S03": ("flow analysis: composition of receive-transform-forward chains over abstract paths", "Every path from a receive on one connection to a send on the other, through queues and helper goroutines; order, single consumer, single sender, drain before close."+BASE),
 "S04": ("effect analysis: blocking operations of each relay direction", "All blocking operations of each relay thread against the queues and connections of the other direction."+BASE),
 "S05": ("path-sensitive property automaton (termination causes and teardown)", "All paths by which each session thread stops, with what they fire and close; the way Start returns."+BASE),
 "S01": ("must-precede automaton over abstract paths of the session handshake", "All paths of Session.Start with helpers inlined: conditions known at each dial, provenance of the address, reachability of dials; GetParameter on all paths."+BASE),
 "V01": ("lock-scoped typestate automaton (registration against the closed event)", "Every registration into Server, Session and ConfigDistributor on every path of their exported operations and goroutines, against the locks held and the closed event; every path of each operation with the event fired before."+BASE),
 "V02": ("must-happen automaton over Close, goroutine-counting automaton over all server goroutines", "All paths of Server.Close and of every goroutine reachable from Start, Serve and ServeConn; complete traversal of the session list, also through copies of it."+BASE),
 "V03": ("path automaton over the accept loops; effect rules for serving goroutines", "All paths between two accepts, all ends of each accept loop, every function run for a session."+BASE),
 "K01": ("path automaton with complete-traversal analysis (map ranges, copies, slices)", "All paths of the monitoring goroutine from one received configuration to the next, of Subscribe and of Get; the traversal of the subscription map and the evaluation of the predicates are followed entry by entry."+BASE),
 "K02": ("typestate of subscriptions with lock scoping", "All paths of every operation of ConfigDistributor and of its goroutines: each send, registration, removal and return of Unsubscribe and Close against locks held and the subscription's event."+BASE),
 "S06": ("typestate of every channel that is closed: one discipline per close/send site", "Every statement of the program that closes a channel or sends on one, on every path of the operations reaching it; uncovered sites are reported."+BASE),
 "S07": ("release analysis: waits-for relation of every goroutine against what Close ends", "Every operation that can wait, on every path of every goroutine of a session or of the server (helpers inlined), against the events fired and the connections and listeners closed by Close; exactly one known exception (KNOWN_FINDINGS.txt)."+BASE),
 "D01": ("abstract interpretation with a value domain per connection parameter", "Every path of the URI translation with its helpers: scheme, and for each of the five parameters the composition query over URI part over default; causes of every error."+BASE),
 "G01": ("path automaton over the command line and the reload callback (provenance of published configurations)", "All paths of cli.Run with loading inlined and of the goroutines it starts: each publication of a configuration, each failed load, the start of the server."+BASE),
 "G02": ("path automaton over the file-watching goroutine and the start-up path", "All paths between two waits for file events with the callback inlined; all ends of the goroutine; all paths to the start of the server and of failed watches."+BASE),
 "Q01": ("effect rule over database use; typestate of result sets and handles", "Every use of database/sql in the program (statements constant and read-only), and every path of the inspector's operations: iteration error consulted before a result counts as complete, result sets closed, handle given out only after the database answered."+BASE),
 "S08": ("resource typestate with ownership transfer over abstract paths", "Every call of the program that accepts, dials, listens or opens, on every path of the operations reaching it and of the goroutines it is handed to; replaced listeners; Session.Start's and Session.Close's ends."+BASE),
 "K03": ("lock-order graph and blocking-effect analysis under locks", "All paths of every entry point from which a lock is acquired (sessions and goroutines inlined): waits under locks, re-acquisition, acquisition order between lock classes, predicates."+BASE),
 "X01": ("interprocedural taint (information-flow) analysis with parametric function summaries and a field-based heap", "All values, fields, calls and captured variables of the whole program, flow-insensitively per function value (so on all paths); every argument of every logging, printing, output-stream and panic call. Implicit flows are out of scope."+BASE),
 "L01": ("lockset analysis over abstract paths with goroutine start/join ordering and ownership; value-origin analysis for the protocol package", "All accesses to fields, contents, captured and package variables on every path of every entry point and of the goroutines it starts; every lock's release on every path; state kept between calls by pkg/pg."+BASE),
 "V04": ("path automaton over the configuration loop of Server.Start and its subscription filter", "All paths from one configuration received to the next: open, replace, close, serve, log; all paths of the filter."+BASE),
}
NOT = {
 "N01": "Progress within bounded time depends on the peers and the network; the code sets no deadlines and no static argument bounds it.",
 "N02": "Depends on how a PostgreSQL server evaluates an SQL query; nothing in the Go source decides it.",
 "N03": "What is reported for a rename depends on the kernel and on the notification library at run time.",
}
