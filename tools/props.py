SYNC = ["event/feed.go", "event/feedof.go", "event/event.go", "event/subscription.go", "common/mclock/simclock.go", "common/mclock/alarm.go", "log/handler.go", "log/handler_glog.go", "log/format.go"]

prop("E04", "Locks are released on every path, ordered, and never held over user code",
 "Every operation of the event, log and clock packages that takes a lock gives it back on every way out, including panics that callers can recover from, and never takes a lock it already holds. Locks are always taken in one acyclic order, so no set of concurrent operations deadlocks on them. User-supplied callbacks, handlers and blocking channel operations run with no internal lock held, except the documented ones that exist to be held there.",
 ["schedules", "histories", "fault_sequences"], "every exported operation and every goroutine it starts, every path through it including panics, any interleaving",
 "tests exercise a few interleavings and hardly any panic path; a leaked lock or an order inversion shows only on the path or interleaving nobody sampled",
 SYNC, [("send token, inbox lock, subscription once", "event/feed.go"), ("mux lock and per-subscription locks", "event/event.go"), ("glog site cache lock", "log/handler_glog.go"), ("clock lock", "common/mclock/simclock.go")],
 "interprocedural lock-set typestate (path-sensitive abstract interpretation over SSA) + lock-order graph",
 "Static. Every path of every API root of the event, log and mclock packages is interpreted with its set of held locks; release, self-acquisition, what runs under a lock, and the order graph are checked on each. Assumes address terms that differ syntactically denote different locks of a class; same-class nesting is reported.")

prop("E05", "Shared state is only touched under the one lock that guards it",
 "State that several goroutines can reach through the event, log and clock APIs is, once published, either never written again, accessed only atomically, owned by one goroutine, or guarded by one lock that every access to it holds in a sufficient mode. No two operations can therefore race on it.",
 ["schedules", "histories"], "every pair of exported operations (and goroutines they start) running concurrently on the same object",
 "the race detector sees only interleavings a test happens to run; the tests run few operations concurrently",
 SYNC, [("fields guarded by Feed.mu and the send token", "event/feed.go"), ("funSub.mu, SubscriptionScope.mu", "event/subscription.go"), ("GlogHandler.lock and atomics", "log/handler_glog.go"), ("Simulated.mu", "common/mclock/simclock.go")],
 "interprocedural lock-set (Eraser-style guarded-by) analysis over SSA with ownership/escape tracking",
 "Static. Each field, global and map that is written after publication must have a lock common to all its accesses, be atomic-only, or be confined to one goroutine. Objects not yet published are exempt; three accesses ordered by other means are listed in the checker with reasons. Alarm, documented single-goroutine, is out of scope.")

FEED = ["event/feed.go", "event/feedof.go"]
prop("E01", "A feed delivers each event to every subscriber once and counts exactly those",
 "When a send on a feed returns, the value was sent exactly once to every channel that was subscribed when the send started and has not been unsubscribed during it, each channel receiving that value and no other. The number returned is the number of channels it was actually sent to. The next send starts from a complete and consistent list of subscribers again, whatever order they accepted or left in.",
 ["schedules", "histories", "inputs"], "every set of subscribers, every order in which they become ready or unsubscribe while a send is in progress",
 "tests use a few subscribers in the orders the scheduler happens to choose; the swap-and-shrink bookkeeping has to be right for every order of accepting and leaving",
 FEED, [("Send: non-blocking round, blocking select, deactivate, delete", "event/feed.go"), ("FeedOf.Send", "event/feedof.go")],
 "relational loop-invariant dataflow over SSA: permutation and counting accounting of the subscriber list",
 "Static. Every path of Send is interpreted; its loops are summarised by inductive linear invariants found by widening, and each path must account for one delivery per active entry, one count per delivery, permutation-only edits of the list and reset of the transmitted values. Ready order of channels is left to Go's select.")

prop("E02", "Subscribing adds one entry to a feed, unsubscribing removes exactly that entry",
 "Subscribing a channel to a feed registers it exactly once and only if its element type is the feed's, and unsubscribing, at any moment including during a send, removes that registration and no other. After unsubscribing returns the channel receives nothing more through it, its error channel is closed exactly once, and later unsubscriptions do nothing. A feed's element type is fixed by its first use and never changes; misuse panics without leaving the feed unusable.",
 ["schedules", "histories", "inputs"], "every history of subscribe and unsubscribe calls, on any number of channels, at any point of a send",
 "tests unsubscribe in a few orders; removing the wrong entry or leaving one behind depends on position, duplicates and on whether a send is running",
 FEED, [("Subscribe, remove, feedSub.Unsubscribe", "event/feed.go"), ("caseList.find, caseList.delete", "event/feed.go"), ("FeedOf.Subscribe, remove", "event/feedof.go")],
 "path-sensitive typestate over SSA with symbolic list contents (sequence algebra)",
 "Static. All paths of Subscribe, Unsubscribe and of Send's removal branch are interpreted; the list's content after each must be the old one plus or minus exactly the subscription's entry, as terms over the old content. Channels in terms are assumed distinct unless proved equal.")

prop("E03", "A producer subscription reports at most one error and always ends",
 "A subscription made from a producer function runs it once, and its error channel yields the producer's error at most once, only if it was not unsubscribed, and is then closed. Unsubscribing tells the producer to stop, returns only after the producer has finished, and may be called any number of times. No order of the producer finishing and of unsubscribing blocks either side forever.",
 ["schedules", "histories"], "every interleaving of the producer's end with any number of unsubscriptions, whether or not anybody reads the error channel",
 "tests run the producer's end and the unsubscription in fixed orders",
 ["event/subscription.go"], [("NewSubscription goroutine", "event/subscription.go"), ("funSub.Unsubscribe", "event/subscription.go")],
 "typestate over SSA of the goroutine and of Unsubscribe (channel send/close protocol)",
 "Static. Every path of the producer goroutine and of Unsubscribe is interpreted from the state the constructor leaves, checking flag discipline under the lock, single send into a buffered channel, close on every exit and the wait of Unsubscribe.")

prop("E06", "A type mux delivers to every current subscriber and closes subscriptions cleanly",
 "Posting on a running mux offers the event to every subscription registered for its dynamic type, exactly once each, skipping only those that were created after the event or are being closed; on a stopped mux it reports the mux-closed error and delivers nothing. Subscribing registers for every requested type, unsubscribing removes from every type without touching other subscriptions, and neither alters a subscriber list that a concurrent post is walking. A subscription's channel is closed exactly once, by unsubscribing or by stopping the mux, and never while a delivery may still send on it; a stopped mux accepts nothing.",
 ["schedules", "histories"], "every history of subscribe, post, unsubscribe and stop, concurrently",
 "tests use one or two subscribers and fixed schedules; copy-on-write and close races need a post in flight",
 ["event/event.go"], [("Post, Subscribe, Stop, del", "event/event.go"), ("deliver, closewait", "event/event.go")],
 "path-sensitive abstract interpretation over SSA: list contents as sequences, close protocol as typestate",
 "Static. Every path of Post, Subscribe, Unsubscribe, Stop, Chan and Closed; loops must visit every entry (inductive index invariants), stored lists must be fresh, closing must mark, wake senders, take the senders' lock, then close. Time is opaque; only the direction of the staleness comparison is checked.")

prop("E07", "A subscription scope owns exactly what it tracks",
 "An open scope tracks every subscription given to it, through a wrapper that forwards its error channel and whose unsubscription unsubscribes the original once and leaves the scope; a closed scope tracks nothing and returns nil. Closing a scope unsubscribes every tracked subscription exactly once, leaves it empty and closed, and a second close does nothing. The count is the number currently tracked.",
 ["histories", "schedules"], "every history of track, unsubscribe, count and close on a scope",
 "the tests track a handful and close once",
 ["event/subscription.go"], [("SubscriptionScope.Track, Close, Count", "event/subscription.go"), ("scopeSub", "event/subscription.go")],
 "path-sensitive abstract interpretation over SSA: set contents as terms, full-range loop coverage",
 "Static. Every path of Track, Close, Count and of the wrapper's methods, started from the state Track leaves.")

prop("E08", "A resubscription keeps one live attempt, backs off and stops when told",
 "A resubscription runs one attempt at a time, each with a context that is cancelled when it is over and with the error that ended the previous subscription, and every subscription an attempt yields is unsubscribed or has ended by itself. It stops, unsubscribing what it holds, when unsubscribed at any moment or when a subscription ends with no error, and otherwise tries again. The wait after a failed attempt is reset when the last try is long past, else doubled, and never exceeds the maximum; no goroutine is left blocked.",
 ["schedules", "histories", "fault_sequences"], "every sequence of attempt outcomes and every moment of unsubscribing",
 "the tests script a few outcomes; a leaked attempt or a missed cancellation depends on unsubscribing at one particular moment",
 ["event/subscription.go"], [("resubscribeSub.loop, subscribe, waitForError, backoffWait", "event/subscription.go")],
 "path-sensitive abstract interpretation over SSA of the loop, its goroutines and selects (obligation typestate)",
 "Static. One arbitrary round of the loop is interpreted on every path, from widened loop state. Real time is opaque: the bound and the doubling/reset rule are checked as terms, not durations.")

prop("M01", "The simulated clock runs each due timer once, in order, and nothing else",
 "Advancing a simulated clock sets it to the old time plus the duration and runs, after releasing the clock, every timer due by then that was not stopped, exactly once and in order of due time; later timers stay scheduled. Scheduling and resetting make a timer due at the current time plus the duration, stopping takes exactly that timer off and reports whether it was still pending, and a channel timer sends its due time without blocking the clock. Waiting for timers returns only when enough are scheduled and is woken whenever one is added.",
 ["histories", "schedules", "inputs"], "every history of scheduling, resetting, stopping and advancing, with any durations",
 "tests advance a few timers; index bookkeeping in the heap goes wrong only for particular orders of stop, reset and expiry",
 ["common/mclock/simclock.go"], [("Run, schedule, WaitForTimers", "common/mclock/simclock.go"), ("simTimer.Stop, Reset", "common/mclock/simclock.go"), ("simTimerHeap", "common/mclock/simclock.go")],
 "path-sensitive abstract interpretation over SSA against container/heap's contract",
 "Static. The heap methods are checked against container/heap's documented contract (its algorithm is trusted); every path of Run, Stop, Reset, the scheduling calls and the queries is interpreted, Run's loops by inductive invariants. Integer overflow of times is not considered.")

prop("M02", "An alarm fires no later than its deadline and not after it is stopped",
 "Scheduling an alarm guarantees a timer on its clock that fires no later than the requested time, at once if that time has passed, and sets no second timer beside a pending one. A firing alarm puts at most one notification into its channel and never waits for a reader. Stopping cancels the timer, takes back an unread notification, and lets the next scheduling set a timer again.",
 ["histories", "inputs"], "every sequence of schedule, stop and clock movements, with any times",
 "the tests use a few fixed times; a deadline kept one step too long suppresses a later alarm only in particular sequences",
 ["common/mclock/alarm.go"], [("Alarm.Schedule, Stop, send", "common/mclock/alarm.go")],
 "path-sensitive abstract interpretation over SSA with linear facts about times",
 "Static. Every path of NewAlarm, Schedule, Stop, C and of the timer function; deadlines and durations as linear terms. Single-goroutine use, as documented.")

prop("M03", "System timers fire with the time, once per setting, and leave nothing blocked",
 "The system clock's sleeping and timer functions set exactly one runtime timer for the given duration. A channel timer sends the current monotonic time on its own buffered channel when it expires, and an expiry never blocks, even after resets that nobody read; its stop and reset act on that runtime timer and report its result. Adding a duration to a time and subtracting two times are exact inverses.",
 ["histories", "inputs"], "any durations and any order of reset, stop and expiry",
 "the tests do not reset an unread timer or count the goroutines left behind",
 ["common/mclock/mclock.go"], [("System.NewTimer, After, AfterFunc", "common/mclock/mclock.go"), ("AbsTime.Add, Sub", "common/mclock/mclock.go")],
 "path-sensitive abstract interpretation over SSA, including the timers' functions",
 "Static. The runtime's own timers and monotonic clock are trusted.")

LOGGER = ["log/logger.go", "log/root.go", "log/handler_go14.go"]
prop("L01", "A log call hands over exactly one record with its own level, site and context",
 "Every logging call, on a logger or on the package, hands exactly one record to the logger's current handler, carrying the level it is named after, its message, the current time, the caller's call site, the key names and the logger's context followed by the call's. An odd argument list is completed with a nil and a note that says so, and a single map given as context becomes its pairs. A critical call ends the process with status 1, after its record was handled.",
 ["inputs", "programs"], "every message, level, context and argument list, from any call site",
 "tests look at one or two calls; a wrong skip depth or a misplaced pair shows only for the function and argument shape concerned",
 LOGGER, [("logger.write and the level methods", "log/logger.go"), ("package functions, Output", "log/root.go"), ("normalize, newContext", "log/logger.go")],
 "path-sensitive abstract interpretation over SSA of every logging entry point (sequence algebra, call-depth accounting)",
 "Static. All paths of the six methods, six package functions and Output; contexts as sequence terms; the depth handed to the call-stack library is compared with the actual depth of the call. The stack library itself is trusted.")

prop("L02", "Level names, order and severities agree everywhere",
 "The six levels are ordered from critical to trace as 0 to 5, their names and aligned names are the documented ones, parsing a documented name gives the level that prints as it, and any other name is refused. The terminal format shows each level under its own name and colour, and syslog gets the matching severity.",
 ["inputs", "configurations"], "every level value and every string",
 "no test enumerates the tables against one another; two tables that disagree on one level pass",
 ["log/logger.go", "log/format.go", "log/syslog.go"], [("Lvl.String, AlignedString, LvlFromString", "log/logger.go"), ("TerminalFormat colours", "log/format.go"), ("SyslogHandler severities", "log/syslog.go")],
 "path-sensitive abstract interpretation over SSA: decision tables extracted from code and compared",
 "Static. Each table is extracted from all paths of the function whatever its shape (switch, map, array) and compared with the documented one.")

prop("L03", "Loggers do not share or disturb each other's context or handler",
 "A logger's context is never changed once it is made: neither logging nor deriving a child writes to the parent's context or to the caller's arguments, and each record and child has its context to itself. A child uses its parent's current handler until it is given its own, which affects only itself and its descendants. Handlers can be replaced at any moment, and the root has a working handler from the start.",
 ["histories", "schedules", "inputs"], "every tree of derived loggers, any argument slices including shared ones, any order of replacing handlers",
 "aliasing of backing arrays shows only with spare capacity and two siblings; tests use literal arguments",
 LOGGER + ["log/handler.go"], [("newContext, normalize", "log/logger.go"), ("logger.New, SetHandler", "log/logger.go"), ("swapHandler", "log/handler.go"), ("init", "log/root.go")],
 "ownership and aliasing analysis over SSA (path-sensitive abstract interpretation with array regions)",
 "Static. Every path of New, the logging calls, SetHandler and GetHandler; which array each context lives in and what is written to it is tracked.")

prop("L04", "Handlers pass on every record they accept, exactly once and in order",
 "Each handler hands every record it accepts to the handlers it wraps, exactly once each, in order, and returns their error: filters pass on exactly the records that match, the failover handler stops at the first success and otherwise notes each failure and returns the last one, the multi handler serves all whatever they return, and channel and buffered handlers forward every record. Stream and file handlers write each formatted record with one write while holding the handler's lock, and report its error. Handlers that add call-site information add it under its own key and then pass the record on, and the panicking constructors panic exactly when the handler could not be made.",
 ["inputs", "programs", "fault_sequences"], "every record, every composition of handlers and every sequence of their failures",
 "tests compose a few handlers with one or two records; what a handler does when another fails, or with an odd context, is not sampled",
 ["log/handler.go"], [("all handler constructors", "log/handler.go"), ("muster methods", "log/handler.go")],
 "path-sensitive abstract interpretation over SSA of each constructor and of the handler it returns",
 "Static. Every path of every constructor and of the returned handler's Log, loops over handlers and contexts by inductive invariants; wrapped handlers, writers and formats are opaque and may fail.")

prop("L05", "Lazy values are evaluated once, in place, and never crash the log call",
 "The lazy handler replaces every lazy value of a record's context by what its function returns, called exactly once: a single result as it is (a call stack trimmed to the caller), several as a list of all of them in order. A lazy value that holds no callable function - nil, not a function, taking arguments or returning nothing - is not called but replaced by an error, and then, and only then, an error note is appended once to the context. Nothing else in the context changes, and the record is then passed on once, its answer returned.",
 ["inputs", "programs"], "every context, with lazy values of every type at any position",
 "tests evaluate one valid function; the combination of valid and invalid values, nil functions and several results is not sampled",
 ["log/handler.go"], [("LazyHandler, evaluateLazy", "log/handler.go")],
 "path-sensitive abstract interpretation over SSA (loop over pairs by inductive invariants, reflection facts established before the call)",
 "Static. Every path of the returned handler, for an arbitrary context of complete pairs (which L01 guarantees); a panic of the lazy function itself is its own. reflect and the stack library are trusted.")

prop("L06", "The glog handler's verdicts are those of the rules in force",
 "A glog handler passes a record on, once, exactly when the global level or the level of the first module rule matching its call site admits it, and returns the wrapped handler's answer. Verdicts remembered per call site are always those of the rules in force: setting rules forgets them all, and the rules in force are exactly those of the last well-formed set, each matching the files its glob pattern names. A malformed rule set or location is refused and changes nothing, and a record logged at the requested location is raised to info and carries the stacks.",
 ["histories", "schedules", "inputs"], "every rule set, every history of setting rules and logging, from any goroutine",
 "tests set one rule set and log a few records; a stale verdict needs two rule sets and a call site used under both",
 ["log/handler_glog.go"], [("GlogHandler.Log, Vmodule, BacktraceAt, Verbosity, SetHandler", "log/handler_glog.go")],
 "path-sensitive abstract interpretation over SSA (string terms for the pattern built, lock regions for the cache)",
 "Static. Every path of every method; the pattern compiled for a rule is compared, as a string term, with the documented translation. The regexp library is trusted.")

prop("L07", "Formatted records are unambiguous and say what the record holds",
 "Every key and value a logfmt or terminal line contains is printed as it is exactly if it consists of printable ASCII without space, quotes or the equals sign, and quoted otherwise; a terminal line's message likewise, spaces and line breaks apart. A line prints its pairs in order, each as key, equals sign and that value's own text, one space between, padded with spaces only, and ends with its newline; a logfmt line starts with time, level and message. A JSON record is one object holding time, level, message and each pair under its own key, ends with a newline exactly if asked to, and formatting changes nothing in the record.",
 ["inputs"], "every message, key and value, of any length and any characters, in any context",
 "tests format a few well-behaved values; which characters need quoting, and what a value with its own text or a panicking method does, is a question about every string and type",
 ["log/format.go"], [("LogfmtFormat, TerminalFormat, logfmt", "log/format.go"), ("JSONFormat, JSONFormatEx, JSONFormatOrderedEx", "log/format.go"), ("escapeString, escapeMessage, formatLogfmtValue", "log/format.go")],
 "path-sensitive abstract interpretation over SSA with a taint-style analysis of which texts are safe to print",
 "Static. Every path of every format; loops over characters and pairs by inductive invariants; functions returning text are summarised as safe words or messages and checked to quote exactly what needs it. fmt, strconv, encoding/json and time formatting are trusted; how a value's own methods render it is not judged.")

HEX = ["common/hexutil/json.go", "common/hexutil/hexutil.go", "common/types.go", "common/math/big.go"]
prop("H01", "A decoder that fails leaves its destination as it was",
 "Every decoding method (text, JSON, GraphQL, Scan) of every type, and the shared fixed-size decoders, either fails and leaves its destination exactly as it was, or succeeds and has set it. The decoded value never shares memory with the input, and decoding never changes the input.",
 ["inputs"], "every input of any length and content, for every decoder of the module",
 "tests decode into fresh variables and look at the error or at the value; a destination half overwritten before a late error, or one that shares the input's buffer, looks the same to them",
 HEX, [("Unmarshal* of Bytes, Big, Uint64, Uint", "common/hexutil/json.go"), ("UnmarshalFixedText, JSON, UnprefixedText", "common/hexutil/json.go"), ("Hash, Address, UnprefixedHash/Address, MixedcaseAddress: Unmarshal*, Scan", "common/types.go"), ("HexOrDecimal256, Decimal256", "common/math/big.go")],
 "path-sensitive effect and aliasing analysis over SSA (writes to the destination on each failing path)",
 "Static. Decoders are found by signature, so new ones are covered; every path of each is followed through the functions it calls. encoding/hex, encoding/json, strconv and math/big are modelled by their documentation.")

prop("H02", "Conversion and byte helpers never panic, whatever they are given",
 "No exported function or method of the common, common/hexutil and common/math packages panics, indexes or slices out of range, divides by zero or ends the process, for any arguments of its types (pointers not nil, sizes and positions not negative). The Must functions are the exception: they panic exactly when the function they are named after reports an error, with that error.",
 ["inputs"], "every string, byte slice, number and size, of any length",
 "tests feed a few well-formed and malformed values; an index off by one at one particular length is not sampled",
 HEX + ["common/bytes.go", "common/format.go", "common/size.go", "common/big.go"], [("every exported function", "common/bytes.go"), ("every exported function and method", "common/types.go"), ("every exported function and method", "common/hexutil/hexutil.go"), ("every exported function and method", "common/math/big.go")],
 "abstract interpretation over SSA: bounds, division, nil and panic obligations discharged by linear invariants",
 "Static. Every index, slice, division, conversion and panic site reachable from each exported function is an obligation; loops by inferred linear invariants. Standard library functions are taken to be total except where their documentation says otherwise.")

prop("H03", "Hexadecimal text is decoded only in its canonical form, to what it denotes",
 "Every decoder of hexadecimal text accepts exactly the texts of its form (0x prefix, hexadecimal digits only; a number without leading zeros and not larger than its range; bytes with an even number of digits; a fixed-size value with exactly its length) and returns the value the digits denote. A text is refused with an error that names a defect it has: the missing prefix, the empty number, the leading zero, the odd length, the wrong character or the range. ParseBig256, HexOrDecimal256 and Decimal256 accept numbers up to 256 bits in either base, and IsHexAddress exactly an optional prefix and forty digits.",
 ["inputs"], "every text of every length",
 "tests list a few dozen texts; the accepted language and the value function are for all texts, word boundaries included",
 HEX + ["common/bytes.go"], [("decoders, checkNumber, decodeNibble, mapError", "common/hexutil/hexutil.go"), ("UnmarshalText, UnmarshalJSON, UnmarshalGraphQL, checkText, wrapTypeError", "common/hexutil/json.go"), ("ParseBig256", "common/math/big.go"), ("IsHexAddress, fixed-size types", "common/types.go"), ("ParseHexOrString", "common/bytes.go")],
 "abstract interpretation over SSA: accepted paths imply the canonical form and the positional value (inductive digit fold); refused paths imply the named defect",
 "Static. The digit loops are summarised by the induction head' = 16*head + digit over consecutive positions; errors are identified by the package's error values.")

prop("H04", "Values are written as the canonical text that denotes them",
 "Every encoder and formatter of the common packages writes exactly the text of its value: 0x and two digits a byte for bytes, hashes and addresses, 0x and the digits without leading zeros for numbers of any size (with the sign in front, 0x0 for zero), the decimal digits for Decimal256, the first and last three bytes for a hash on the terminal. Each formatting verb of Hash and Address writes its form, and an unknown verb is reported. Encoding never fails, and a mixed-case address is written to JSON as its original with one 0x prefix.",
 ["inputs"], "every value, every formatting verb and flag",
 "tests list a few values; the text must be right for every magnitude and sign",
 HEX, [("Encode, EncodeUint64, EncodeBig", "common/hexutil/hexutil.go"), ("MarshalText, String, ImplementsGraphQLType", "common/hexutil/json.go"), ("Format, Hex, TerminalString, MarshalText, MarshalJSON", "common/types.go"), ("MarshalText, String", "common/math/big.go")],
 "abstract interpretation over SSA: symbolic output text of every path compared with the canonical text term",
 "Static. strconv, encoding/hex, math/big text conversion and fmt verbs are modelled as functions of the value; a writer is taken not to change the bytes it is given. The %v, %s and %q forms of Address are judged by H05.")

prop("H05", "Addresses are shown and judged with their EIP-55 checksum",
 "Address.Hex, Address.String, the %v, %s and %q verbs and NewMixedcaseAddress show an address as 0x and its forty digits, a letter being a capital exactly if the digit of the Keccak-256 hash of the lower-case digits at its position is above seven. MixedcaseAddress keeps the original text and address, and calls its checksum valid exactly if the original is that text.",
 ["inputs"], "every address, every capitalisation of the original",
 "tests use a handful of addresses; an off-by-one in the nibble or the last letter shows on few of them",
 ["common/types.go"], [("checksumHex, Hex, String, Format", "common/types.go"), ("NewMixedcaseAddress, ValidChecksum, String", "common/types.go")],
 "inductive loop summary over SSA: per-letter case rule for every position, path-sensitive",
 "Static. The loop over the letters must treat every position from 2 to 41 once and set its case by the rule, whatever the loop's shape; Keccak-256 is an uninterpreted function here.")

prop("B01", "No operation changes a big number it was given or a shared constant",
 "A function that takes big integers, directly or inside a structure, an interface value or a log record, leaves their values as they are; only U256 and U256Bytes, which are documented to overwrite their argument, and the receivers of decoders and setters are written. The shared constants (curve parameters, the 2^n limits, the common.Big values) never change after initialisation, are never replaced, and are never handed out as a result, and no two numbers are left sharing their digits.",
 ["inputs", "histories"], "every call, every alias between arguments, results and constants",
 "the damage shows later, in another caller that uses the same number; tests pass fresh numbers and look at the result",
 ["common/math/big.go", "crypto/curve.go", "common/hexutil/hexutil.go", "log/format.go", "common/types.go"], [("every function with *big.Int", "common/math/big.go"), ("curve arithmetic", "crypto/curve.go"), ("formatLogfmtBigInt", "log/format.go"), ("EncodeBig, DecodeBig", "common/hexutil/hexutil.go")],
 "interprocedural effect and alias analysis on SSA with summaries to a fixpoint",
 "Static. For every function: which parameters, captured variables and globals have the digits behind them written, through any chain of calls, copies, containers and closures. Calls through unknown function values and interfaces are taken not to write numbers.")

prop("B02", "Conversions keep every byte, right-aligned, cut or padded only where stated",
 "Making a hash or an address from bytes, a number or hexadecimal text keeps the last 32 or 20 bytes and puts zeroes in front of shorter input, for input of any length; Bytes, Big, Value and Address.Hash give back exactly those bytes, and Scan accepts exactly values of the right length and stores them unchanged. Left and right padding add only zeroes on their side up to the requested length and never cut; Hex2BytesFixed gives exactly the requested number of bytes. Trimming removes all zero bytes of one end and nothing else, and CopyBytes gives equal bytes in new memory.",
 ["inputs"], "every byte string of every length (shorter, equal, longer, empty), every number, every text",
 "tests convert a handful of values of convenient lengths; an off-by-one or a shift on the wrong side shows at particular lengths only",
 ["common/types.go", "common/bytes.go"], [("BytesToHash, BigToHash, HexToHash, SetBytes, Scan, Value, Big, Bytes", "common/types.go"), ("BytesToAddress, Address.Hash", "common/types.go"), ("LeftPadBytes, RightPadBytes, Trim*, CopyBytes, FromHex, Hex2BytesFixed", "common/bytes.go")],
 "sequence-algebra abstract interpretation over SSA, element loops summarised as ranges",
 "Static. On every path the result is a term over the input sequence, compared with the specified concatenation of zeroes and sub-sequences under the path's length facts. Hexadecimal decoding itself is the standard library's.")

prop("B03", "The big-integer helpers compute what they are for, for every size of number",
 "ReadBits writes the low bytes of a number's magnitude into the buffer, most significant first and right-aligned, as many as fit, and PaddedBigBytes and U256Bytes return all of them with zeroes in front up to the requested length (32). Byte(x, padlength, n) is byte n from the front of the number padded to padlength, zero from there on; FirstBitSet is the index of the lowest set bit; BigMax and BigMin return the larger and smaller, BigPow the power. U256 is the number modulo 2^256, S256 the signed reading of a 256-bit number, and Exp is base^exponent modulo 2^256 for every exponent that is not negative.",
 ["inputs"], "every number of every size, every buffer length, every index, every exponent",
 "the helpers go over 64-bit words; zero words, zero bytes at a word's top, lengths that are not a multiple of 8 and numbers of several words each take another path, and the tests do not cover them",
 ["common/math/big.go"], [("ReadBits, PaddedBigBytes, U256Bytes", "common/math/big.go"), ("Byte, FirstBitSet, BigMax, BigMin, BigPow", "common/math/big.go"), ("U256, S256, Exp", "common/math/big.go")],
 "sequence-algebra abstract interpretation over SSA with per-step transfer of word and bit loops",
 "Static. Results without loops are terms compared with the specified ones; the loops over words, bytes or bits are decided by what one step does at their head (the next byte of the next word goes to the next place from the right; square and multiply). A negative index or length, and negative exponents, are outside it.")

prop("B04", "Slices passed in are only read, never written, kept or shared",
 "An exported function does not write the elements, or the spare room behind the end, of a slice it is given, unless filling that slice is what it is for (Read, the destination of Sum, ReadBits and UnmarshalFixed). Decoders (Unmarshal, Scan, SetBytes, Write) keep no reference to their input once they have returned. Results are not backed by a package's shared tables or by the value they were asked of, CopyBytes never returns its argument, and no shared table changes after initialisation.",
 ["inputs", "histories"], "every slice of every capacity, every later use of it by the caller",
 "tests compare the result and throw the input away; overwriting a neighbour or remembering a buffer shows only in the caller's other data",
 ["common/bytes.go", "common/types.go", "common/hexutil/json.go", "crypto/curve.go", "crypto/sha3/sha3.go", "log/logger.go"], [("padding, trimming, copying", "common/bytes.go"), ("decoders", "common/hexutil/json.go"), ("Scan, SetBytes", "common/types.go"), ("ScalarMult, MnemonicEncode", "crypto/curve.go"), ("normalize, newContext", "log/logger.go"), ("Write, Sum", "crypto/sha3/sha3.go")],
 "interprocedural effect, alias and retention analysis on SSA with summaries to a fixpoint",
 "Static. Same analysis as B01, for the elements of slices; append counts as a write into the spare room unless the slice is cut to its length. Memory reached through further pointers inside the elements is not claimed.")

prop("C01", "Each curve getter returns the standard's parameters, whichever comes first",
 "S160, S192, S224 and S256 return the Koblitz curves secp160k1, secp192k1, secp224k1 and secp256k1 with exactly the prime, order, constant, base point and size of SEC 2, no matter which getter is called first and in what order the others follow. Repeated calls return the same curve. Params hands out each parameter under its own name.",
 ["histories", "configurations"], "every first call and every later one, for each curve and each parameter",
 "nothing in the test suite uses the curves; a wrong digit of an order or a base point shows only in rare computations, and an initialisation mistake only for a particular first call",
 ["crypto/curve.go"], [("S160, S192, S224, S256, initAll, Params", "crypto/curve.go")],
 "abstract interpretation of the initialisation from every first call, parameters compared with the standard",
 "Static. The abstract state after the first call of each getter is carried into every other getter; each parameter cell holds a constant that is compared with the published value.")

prop("C02", "Point arithmetic of the curves is the group law, for all points and scalars",
 "Add, Double, ScalarMult and ScalarBaseMult compute the group law of y² = x³ + B for points of the curve: adding a point to itself doubles it, adding its opposite gives infinity, (0, 0) stands for infinity and is neutral, and k times a point is right for every byte string k (leading zeroes, interior zero bytes and values beyond the order included; no point is returned only for zero). IsOnCurve says yes exactly for the solutions of the equation.",
 ["inputs"], "every pair of points, including equal, opposite and infinite ones, and every scalar of every length",
 "arithmetic that is right for most operands and wrong on a set of measure zero cannot be sampled, and no test touches it",
 ["crypto/curve.go"], [("addJacobian, doubleJacobian, affineFromJacobian", "crypto/curve.go"), ("Add, Double, ScalarMult, ScalarBaseMult, IsOnCurve", "crypto/curve.go")],
 "value numbering in a polynomial ring modulo the prime over abstract paths; loop step and bit-order rules",
 "Static. On each path the coordinates returned are Laurent polynomials in the operands, compared with those of the group law; branch facts decide which case applies. ScalarMult is decided by its loop: start, one doubling per bit, addition where the bit is set, bits visited in order. Assumes coordinates are reduced and that the curve has no point of order two (true of all four).")

prop("C03", "Keys and random bytes come completely from the source, and key pairs match",
 "GenerateKey reads every byte of the private key from the given source in a complete read, keeps all its bits except those above the curve's size, and returns as public key the base point multiplied by exactly the private key returned; a key that has no public key is drawn again, and an error of the source is returned with no point. GetEntropyCSPRNG and the package's Reader fill every byte asked for from crypto/rand, and stop the program rather than return less.",
 ["inputs", "fault_sequences"], "every source, including ones that return short reads or fail at any point, every curve size and length",
 "a test with a well-behaved source cannot see a short read, and predictable bytes look random",
 ["crypto/curve.go", "crypto/randentropy/rand_entropy.go"], [("GenerateKey, mask", "crypto/curve.go"), ("GetEntropyCSPRNG, Reader", "crypto/randentropy/rand_entropy.go")],
 "content-origin dataflow over abstract paths, with loop summaries",
 "Static. Each byte of the returned key is traced to the read it came from; the multiplication is taken as given (C02). Does not claim that the key is below the curve's order.")

prop("C05", "Points are encoded uncompressed at full length and decoded from nothing else",
 "Marshal returns the byte 4 followed by both coordinates, most significant byte first, each padded with zeroes to the curve's byte length, whatever leading zero bytes they have. Unmarshal accepts exactly byte strings that begin with 4 and have that length, returns the two numbers they hold, and returns no point and does not panic for any other input.",
 ["inputs"], "every point of every curve size, every byte string",
 "a coordinate has a leading zero byte once in 256 points, two coordinates of different lengths more rarely; no test covers either function",
 ["crypto/curve.go"], [("Marshal, Unmarshal", "crypto/curve.go")],
 "sequence-algebra abstract interpretation over SSA",
 "Static. The result is a term over the digits of both coordinates, compared with the specified concatenation; acceptance is decided on both sides. Coordinates that do not fit the curve are outside it.")

prop("C04", "The Keccak hashes are the sponge over Keccak-f[1600] for any split of the input",
 "A Keccak digest of 224, 256, 384 or 512 bits is that of the Keccak sponge (rate 200-2n bytes, Keccak-f[1600], padding bit after the last byte and in the last bit of the block), over all the bytes written since the start or Reset, however they were split over calls of Write. Write takes all of its input, does not change it and reports its length with no error. Sum appends the digest to the slice it is given, leaves the running state as it was, and writes nothing out of bounds.",
 ["inputs", "histories"], "every message, every split over Write, every slice given to Sum, every sequence of Write, Sum and Reset",
 "the fill of the block, the length of the piece and the alignment interact at every block boundary; a table of digests samples a few messages written in one call",
 ["crypto/sha3/sha3.go", "crypto/sha3/keccakf.go"],
 [("keccakF1600", "crypto/sha3/keccakf.go"), ("digest.Write, digest.unalignedAbsorb", "crypto/sha3/sha3.go"), ("digest.pad, digest.squeeze, digest.Sum", "crypto/sha3/sha3.go"), ("NewKeccak224..512", "crypto/sha3/sha3.go")],
 "value numbering of the permutation, and invariant inference over the loops of Write",
 "Static. The permutation is compared round by round with the algebraic description of Keccak-f; absorption is decided by linear invariants relating the bytes used, the fill of the block and the counter at every loop head, for a message and a fill that are symbolic.")

prop("C06", "The mnemonic words of a seed give back the seed",
 "MnemonicEncode of a text made of groups of 8 hexadecimal digits returns three words of the fixed list for every group, in order: for the number x of a group, with the list's n = 1626 words, w1 = x mod n, w2 = (x/n + w1) mod n, w3 = (x/n/n + w2) mod n. MnemonicDecode of words of the list in groups of three returns the digits those numbers come from, so decoding what was encoded gives the same digits (in lower case) for every seed. The words of the list are distinct and their order does not change.",
 ["inputs"], "every text of 8-digit groups, every list of words of the list in threes",
 "2^32 groups and 1626^3 triples; the tests try a few seeds, and the sign corrections and the ends of the list matter for few of them",
 ["crypto/mnemonic.go"], [("MnemonicEncode, MnemonicDecode, IndexOf", "crypto/mnemonic.go"), ("MnemonicWords", "crypto/mnemonic.go")],
 "per-iteration transfer terms compared with a specified linear map over loop summaries",
 "Static. What an iteration appends is a term over the group at the loop's head; it is compared with the specified one for all values. Texts with other characters and words not in the list are outside it.")

prop("R01", "RLP struct tags select and describe fields by fixed rules",
 "ProcessFields returns, in order and each with its own tags, exactly the exported fields not tagged \"-\". The tags nil, nilString, nilList, optional, tail and - set exactly the flags they stand for (nil: the kind of the pointed-to type, a string for unsigned integers, strings, bools and byte slices or arrays whose elements are not encoders, otherwise a list). A struct is rejected, with no fields and an error naming field and tag, exactly if a nil tag is on a non-pointer, tail is not on the last exported field, is not on a slice or is combined with optional, a tag is unknown, or a field that is neither optional nor tail follows one that is.",
 ["inputs"], "every list of fields, every tag string, every type",
 "tags combine in any order and number within a field and across fields; a table tests single tags",
 ["rlp/internal/rlpstruct/rlpstruct.go"], [("ProcessFields, parseTag, lastPublicField", "rlp/internal/rlpstruct/rlpstruct.go"), ("Type.DefaultNilValue", "rlp/internal/rlpstruct/rlpstruct.go")],
 "per-tag transfer functions compared with a specified transition table over loop summaries",
 "Static. The loop over the tags is compared, path by path and tag by tag, with a table of what each tag does to the flags at the head of the loop; the loop over the fields with what may be skipped and collected. Field.Index is taken as the identity of a field.")

prop("K01", "Each contract solc reports becomes one Contract with what solc wrote about it",
 "ParseCombinedJSON and ParseCombinedJSONV8 return, for the JSON that solc --combined-json writes, exactly one Contract of its own per member of \"contracts\", under the member's name: Code and RuntimeCode are 0x and bin and bin-runtime, source maps, metadata and hashes are the members of those names, ABI, user and developer documentation are the decoded abi, userdoc and devdoc (strings of JSON before solc 0.8, JSON values from it on; ParseCombinedJSON takes both), the language is Solidity, and source, versions and options are the arguments given. If something cannot be decoded the result is an error and no contracts. Contract and ContractInfo are saved in JSON under fixed names (code, runtime-code, info, hashes; source, language, languageVersion, compilerVersion, compilerOptions, srcMap, srcMapRuntime, abiDefinition, userDoc, developerDoc, metadata).",
 ["inputs"], "every combined-JSON document, of any number of contracts, in either layout",
 "fifteen parts per contract, nearly all strings, in two layouts; a swapped part, a shared entry or a lost error shows only in documents of several contracts or with unusual members, and the package has no tests",
 ["common/compiler/solidity.go", "common/compiler/helpers.go"], [("ParseCombinedJSON, ParseCombinedJSONV8", "common/compiler/solidity.go"), ("Contract, ContractInfo", "common/compiler/helpers.go")],
 "per-iteration field-provenance analysis over loop summaries, with JSON member names resolved from struct tags",
 "Static. What an iteration over the contracts stores is a term over the decoded document; it is compared with the member it must come from, found through the tags of the decoding type. encoding/json is taken to decode as documented.")

prop("S01", "Sizes and ages are shown in the units of their magnitude, without loss beyond",
 "StorageSize shows, for every size, the number of the unit (B, KiB, MiB, GiB, TiB, each 1024 of the one before) with two decimals and the unit, with a space between them in String and none in TerminalString; the unit is such that the number is at least 1 (except for B) and at most 1024 (except for TiB). PrettyAge shows the time passed since then as 0 if it is less than a second, and otherwise as the first three components that are not zero of years (of 12 months), months (of 30 days), weeks, days, hours, minutes and seconds, each the whole number of that unit in what the larger units leave.",
 ["inputs"], "every size, every age",
 "the unit changes at four and seven boundaries, and components that are zero may be anywhere between; the test has one value per unit of size and none for ages",
 ["common/size.go", "common/format.go"], [("StorageSize.String, StorageSize.TerminalString", "common/size.go"), ("PrettyAge.String", "common/format.go")],
 "partitioned abstract interpretation over SSA: result texts as terms checked against path facts",
 "Static. Every path's text is read back as numbers and units; each number must be the specified quotient and the facts of the path must imply that the unit applies. Rounding by %.2f and PrettyDuration are not claimed.")

prop("S02", "A JSON file is loaded whole or not, and a syntax error names its file and line",
 "LoadJSON reads the named file, decodes the whole of it into the value given, and returns nil exactly if both succeeded; nothing is decoded from a file that could not be read. For a syntax error the text names the file followed by the line, which is 1 plus the number of line breaks among the bytes in front of the error's offset. AbsolutePath returns absolute names as they are and others joined to the directory, and FileExist is false exactly if the file is known not to exist.",
 ["inputs", "fault_sequences"], "every content, every offset of an error, every failure of the file system",
 "lines depend on where in the file the error is, and failures of reading need a file system that fails; no test covers these functions",
 ["common/test_utils.go", "common/path.go"], [("LoadJSON, findLine", "common/test_utils.go"), ("AbsolutePath, FileExist", "common/path.go")],
 "partitioned abstract interpretation over SSA with per-step transfer of the line-counting loop",
 "Static. Files and decoding are modelled by every outcome they can have; the line is decided by what one step of the counting loop does and where it starts and ends. The operating system and encoding/json are trusted.")

na("N01", "RPC requests get exactly one response with their own id",
 "Every call message the RPC handler accepts is answered exactly once with the id it carried, batches are answered together, and notifications are not answered. Closing the connection ends its subscriptions and pending calls.",
 ["inputs", "schedules", "fault_sequences"], "every message sequence, every interleaving of handlers and of connection loss", "needs all interleavings and failures",
 ["rpc/handler.go", "rpc/json.go", "rpc/subscription.go"], [("handler", "rpc/handler.go")],
 "Package rpc does not parse at this commit (json.go ends in the middle of a declaration, server and codec types are missing), so there is no type-checked program to analyse and none of its behaviour exists.")

na("N02", "The command test harness relays output in order and always reaps its child",
 "TestCmd matches the child's output in order, kills a child that runs out of time and waits for it in every case.",
 ["schedules", "fault_sequences"], "every timing of the child process", "depends on process timing",
 ["internal/cmdtest/test_cmd.go"], [("TestCmd", "internal/cmdtest/test_cmd.go")],
 "The package imports modules that are not part of the build (it does not compile here), and the behaviour is that of an external process.")

na("N03", "Waiting times are met in real time",
 "A resubscription attempt starts no later than its backoff time after the previous failure, and an alarm on the system clock fires within the scheduler's latency of its deadline.",
 ["schedules"], "every load of the machine", "wall-clock behaviour",
 ["event/subscription.go", "common/mclock/alarm.go"], [("backoffWait", "event/subscription.go")],
 "Real-time latency is a property of the Go scheduler and the machine, not of the source; the logical part (which wait is requested, from which deadline) is claimed in E08, M02 and M03.")

na("N04", "A channel receives the events of one sender in the order they were sent",
 "Two sends made one after the other reach a subscriber that stays subscribed in that order, and concurrent sends reach all subscribers in one common order.",
 ["schedules", "histories"], "every interleaving of sends and receives", "needs whole histories",
 ["event/feed.go", "event/feedof.go"], [("send token", "event/feed.go")],
 "An order between deliveries of different Send calls is a statement about whole histories of Go channel operations; no per-path static argument here covers it. What it rests on is decided: one send at a time holds the token (E04, E05) and delivers completely before it returns (E01).")

na("N05", "Hash functions have no shortcuts: collisions and preimages are infeasible",
 "Nobody can find two inputs with the same Keccak digest, or a private key from a public one.",
 ["inputs"], "every adversary", "computational hardness",
 ["crypto/sha3/sha3.go", "crypto/curve.go"], [("keccakF1600", "crypto/sha3/keccakf.go")],
 "Computational hardness of the primitives is not decidable from source by any analysis; their being the specified functions is decided (C02, C04).")
