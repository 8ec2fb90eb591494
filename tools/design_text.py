HEAD = '''
# Runtime monitoring of Aize-Public/forego

Forego is a Go library: the `enc` codec and its node tree, `api` operations and their OpenAPI documents, an
HTTP server/client and WebSocket RPC around them, process shutdown, storage, caches, metrics, a small set of
concurrency and collection helpers, contexts with tags, spans and errors, logging, configuration from the
environment, and test helpers. `properties.jsonl` states what a user of each part relies on. Everything is
decided by one technique: **the real code is run under generated, hostile, concurrent and faulty workloads, and
an oracle that does not depend on the code under test judges every execution**, with the Go race detector on.

No property is listed as not applicable: forego is an ordinary library of values, goroutines, sockets and
processes, so every guarantee can be observed from outside. What the technique cannot give is a proof: a check
that is quiet says that no driven execution broke the property, nothing more (level `exploration` everywhere).

## Machinery

- `check.sh ID` builds `mon/` (a Go module of its own, `replace`d onto `/repo`, built with `-race`) from /repo's
  current working tree and runs one property's check. No hook is needed in /repo: every observation is made at
  the public interface (or on sockets, files, processes and the metrics page), so refactorings inside cannot
  disturb a check. `MANIFEST.json` therefore lists no hooks.
- `mon/parent.go`: each check runs in a child process. The parent turns a crash, a fatal runtime error (such as
  "concurrent map writes"), a deadlock, a timeout or a data race report of the child into a violation, even when
  the harness itself could not report anything. Races that touch only harness code are errors of the harness
  (exit 3), never violations.
- `mon/kit.go`: deterministic random sources per case (`VERIF_SEED` and the case number name a case, so that the
  replay file can say how to see it again), `Guard` (a panic is a violation, with the input), `Within` (a call that
  does not end is a violation, with all stacks), `Par` (goroutines released together), `Scenario` (a case in a process
  of its own, for signals and the process-wide shutdown), counters of what was really observed, known findings.
- `mon/gen.go`: reflection-built Go types (structs with every kind of tag, pointers, slices, arrays, maps, named
  kinds, dynamic values, big and tiny), values of them, JSON documents of every syntax, byte-level damage.
- `mon/keep.go`: results that were handed out are kept, and compared again after much more work: memory that is
  pooled, shared or rewritten behind the caller's back shows here, whichever layer did it.
- Linearizability (C32, C39) is decided by porcupine, from the module cache, on recorded call/return histories.
- Every check writes `evidence/<id>.json`: cases evaluated, how many were distinct and non-trivial, counters of
  the events the monitors saw (requests answered, frames, interleavings, hits, evictions...), samples, bounds.
- Oracles never compare with forego itself, except where the property says "the same as when run alone".
  Independent references: encoding/json, math/big, strconv, time, net/http on a raw socket, a WebSocket client written
  for the harness, a strict reader of the Prometheus text format, a JSON schema checker, and explicit models.

Quick checks take from 2 to 25 s each on 8 cores; thorough ones run 10 to 50 times the cases (`VERIF_TIER=thorough`,
minutes). Both use the same oracles.

Dimensions every workload was reviewed for, after planted bugs had shown that they get forgotten: results kept and
looked at later, large inputs, concurrency, history (repetition, late registration, things cached on first use),
rare options and tags, values that look alike (separator collisions), interaction with process-wide state.
'''

ORACLE = {
'C01': 'encoding/json decides which documents are valid and what they denote (numbers kept as text); a tree built in memory is compared with the tokens of its encoding. Decoded trees and encodings are kept and compared later; codecs also run concurrently.',
'C02': 'deep equality between the value and its round trip (NaN aside), into fresh and into pre-filled targets, by value and by pointer, via JSON and via nodes.',
'C03': 'encoding/json on the same value or document: token equality of the texts, deep equality of the values read.',
'C04': 'math/big rationals of the literal: exact value, truncation or an error are the only outcomes; float targets are compared with strconv\'s nearest value.',
'C05': 'a model of the field table computed from the struct tags by the harness: expected keys, expected assignments, expected callback calls with their paths.',
'C06': 'no panic (recovered and reported with the input), no hang (watchdog), output that encoding/json accepts; a table of kinds that do not fit gives the pairs that must fail.',
'C07': 'the token sequence of the output against the declaration, insertion or list order known to the generator, up to thousands of elements.',
'C08': 'the race detector, and equality of each concurrent result with the one computed alone; fresh types are made for first-use races.',
'C09': 'package time: the instant, offset and text expected are computed directly; numeric durations are compared with exact rationals.',
'C10': 'a log of hook calls (which type, with which context, with which payload) against the occurrences the generator placed.',
'C11': 'an offline check of the event log of each pipe: reads are the successful writes, once, in order per writer, EOF only after them; post-close and cancellation outcomes.',
'C12': 'a model of which wire names travel in which direction, checked on the request, the server object, the response and the client object, with hostile extra keys.',
'C13': 'a model decides for each payload and identity whether it must be refused and for which fields; the error must name one of them.',
'C14': 'unique values per request and pointer identity; templates and other requests must not change when one request scribbles over its own object; race detector.',
'C15': 'a walk of the Go type computes the schema that must come out; documents written by enc for random values are validated against the schema by a small JSON-schema checker; references must resolve.',
'C16': 'an echo of the exact bytes over a raw client; gzip is undone by the harness; the Accept-Encoding grammar is evaluated independently.',
'C17': 'the status is computed from the construction of the error; secret tokens planted in every cause must not occur in a 5xx body; tracking ids must be new.',
'C18': 'every run of Do is recorded under the unique name of its request: exactly one for a valid request, none otherwise; the client object is compared with what Do set.',
'C19': 'known numbers of requests per (method, path, status) against the difference of the histogram read before and after.',
'C20': 'the state last set is known to the monitor; under flapping, any code set during the probe; the document is parsed and its paths compared with all registrations made so far. Registrations come between readings of the document, not during them: its parts are public and handed out for editing, so describing an operation while the document is being written is the caller\'s to order.',
'C21': 'order of events inside a separate process: handler ends, bytes received by clients, refused connections, completion.',
'C22': 'the script of the server says what the client must return; connections open are counted by the server side.',
'C23': 'the bytes the reader handed out, count of closes, deadlines; results are kept and compared later.',
'C24': 'a serial model of the objects predicts the whole stream of frames; overlap is watched inside the methods.',
'C25': 'the same model with opens, closes, reopens and templates; freshness is asserted in Init on the server side.',
'C26': 'neighbours run the exact model of C24 all the time; the hostile connection itself may only show prefixes of legal histories; pings must be answered byte for byte.',
'C27': 'each message carries sender, number and a payload that can be recomputed; order per sender, no loss (without close), no tearing, pongs intact in between.',
'C28': 'which frames the client must and must not get after each kind of failure, what still ran on the server, and that shutdown completes.',
'C29': 'the outcome each call must have is known when it is made; frames given to the callback are compared with the model at the moment the call returns.',
'C30': 'holds known to be held (lower and upper bound counted around each call) against the state of the channels.',
'C31': 'a process per script; each signal is sent when the effect of the previous one was seen; exit status and order of events.',
'C32': 'porcupine on histories of Get/Upsert/Delete per key, interval checks for Range; values are scribbled over after being passed in or given out.',
'C33': 'a canonical text of each JSON value, numbers as exact rationals, decides which rows match; all node types, key orders and number syntaxes of one value are mixed.',
'C34': 'a step-by-step model of recency, sizes and evictions; the reported statistics are parsed and compared.',
'C35': 'versions of a source: an answer must be a version fetched after the last invalidation that had completed; fetch intervals of one key must be disjoint.',
'C36': 'offline check of the log of fetches and answers with their times.',
'C37': 'lower and upper bounds on every scrape from observations finished before and started before its end; exact equality at rest.',
'C38': 'a strict parser of the exposition format; names, label values and values must read back exactly, including label values that look alike once joined.',
'C39': 'porcupine on histories of the map; winners of LoadOrStore/LoadAndDelete are counted.',
'C40': 'a counter of holders inside the critical section; deadlines measured with margins; an abandoned attempt must leave the lock takeable.',
'C41': 'a model (slice of keys and a map).',
'C42': 'direct definitions of each helper; n! permutations counted; sets under concurrency by counting successes.',
'C43': 'a model of the tag list of every node of a random context tree; JSON taken at attachment time by encoding/json; buffers scribbled over afterwards.',
'C44': 'Done, Err and Deadline of detached contexts while everything above is cancelled at random times.',
'C45': 'uniqueness of all ids in a process and prefix relation with the parent; which contexts ended after a span ended.',
'C46': 'text, errors.Is/As and the single stack compared with what the construction of the chain recorded.',
'C47': 'every byte written is parsed; each call has a unique token; level, message, src, tags compared with a model; the process-wide default logger is run in a process of its own.',
'C48': 'a model of the context tree says which logger (a function or a slog handler with a level of its own) and which helper each call must reach, whatever the process-wide level is.',
'C49': 'secret tokens must not occur in any output; the argument list is compared before and after; repeated logging gives equal records.',
'C50': 'a model of the configuration grammar converts each text independently with strconv.',
'C51': 'the direct definition of each assertion evaluated by the harness; the verdict is read from a real testing.T.',
'C52': 'a model of the byte stream; readers must be woken within a bound.',
'C53': 'the generator of the program knows the exact text of every argument it wrote; go run of the generated module must report the same.',
'C55': 'the harness sets and knows the request, the identity and what Do answers; Do records what it saw, the object of the caller is compared field by field before and after, and both sides scribble on what they hold.',
'C56': 'each request has an agent, path and connection of its own; afterwards every recorded log line and handler context is matched with the request it names and must carry that request\'s tags and tracking id, and no other.',
'C54': 'a model of nested gates; frames of stacks compared with runtime.Callers at the same place.',
}

MISSED = {
'json-encode-pool': 'yes: results are now kept and compared later (keep.go)',
'enc-dash-tag': 'yes: fields tagged `json:"-,"` are now generated',
'enc-parallel-slices': 'yes: lists of thousands of elements are now generated',
'enc-duration-float': 'yes: large exact numeric durations are now generated',
'api-no-input-shared': 'yes: operations of any shape, with nothing to receive too',
'http-openapi-once': 'yes: registrations after the document was first read',
'readall-pool': 'yes: results are kept and compared later',
'ws-log-channel': 'yes: every mistyped frame in turn, and random ones',
'ws-pong-unlocked': 'yes: pings while messages are being sent',
'ws-panic-goes-on': 'yes: nothing further may run after a panic',
'prom-label-cache': 'yes: label values that look alike once joined, random label names',
'log-level-precheck': 'yes: the process-wide level varies, loggers have levels of their own',
}

TAIL = '''
## Defects found and repaired

Each is one `fix:` commit in /repo and a `fixed:` line in `KNOWN_FINDINGS.txt` with what failed; the check of the
property reports it again if it returns. No fix edits a test or anything under /repo/test.

## Known findings (not repaired)

Listed in `KNOWN_FINDINGS.txt` by signature; the checks print `KNOWN-FINDING:` for them and exit 0, and any other
violation of the same property is still reported.

- C15, `schema:bytes-are-a-list-on-the-wire`: a `[]byte` is documented as a base64 string while enc writes a list of
  numbers. The document's side is asserted by TestSchema, the codec's side is a published format: changing either is
  not small or safe.
- C51 and C52: defects in the assertions and the buffered stream of /repo/test. Their repair would touch files under
  `test/`, which the rules of this task count as test files; the main workloads of both checks stay clear of them, and one
  probe per finding shows it is still there.

## False alarms met while building, and what was changed

- C27: when the server closes while pings of the client are unread, TCP resets the connection and loses what had been
  sent; the workload now lets the client end such runs.
- C11: closing a `chan`-based pipe while a write is in progress is a race by the letter of the detector (the panic is
  recovered by design and the write fails); exactly this report is filtered in `Races()`.
- C38: label values that are not UTF-8 cannot be represented on the page; they are generated as UTF-8 only, except where
  the replacement is what is checked.
- C21: a server waits 30 s at most for its handlers (in its statement), so no handler takes longer.
- C34/C35: the LRU and Mem caches hold their lock while fetching (an upstream TODO); fetches of different keys are
  therefore not required to be concurrent.

## Limits: what the checks do not claim

- enc: nodes that contain themselves and are encoded without Marshal overflow the stack, as do cycles through custom conversions; recursive lists and maps are described one level deep; unsupported tag options panic by design; a
  number is accepted where a string is wanted; the README's "default both" for untagged fields is not what the code does
  (untagged fields are state) and the statements follow the code.
- http: authentication and 403 are TODOs upstream; panicking handlers are not measured by the request metric;
  connections hijacked by WebSockets hold the shutdown until they end, and are measured as 101 whatever is then written to them (a refused handshake, say); `Call.reqBody` cannot be seen by handlers.
- ws: a frame with an unknown channel or path disconnects; a failed call is answered by "return" and then "error"; opening a
  channel id again whose Init fails destroys the earlier channel.
- storage: Greater/Lesser and the like are unsupported (an error), and on an empty table, or behind a filter that already
  refused the row, the operator is not looked at; the SQL memory driver is an empty stub.
- caches: an eviction from RequestCache during a fetch may allow a second fetch.
- prom: prom.Counter is not a Metric (it prints itself).
- config: a default cannot contain commas; floats, int64 and durations are not supported (an error).
- log: NewDefaultSlogLogger resets the process-wide level; tags that are not valid JSON are dropped or replaced by an error text.
- ast: two calls of the same name on one line cannot be told apart; a call whose name stands on a line of its own is not found.
- test helpers: EqualsJSON of two values that cannot be marshalled passes; reading with an empty slice may block; typed nil
  errors are not judged.
- utils: StackFrame.AbsFile matches prefixes without a slash; OrderedMap grows under churn of Put and Delete.
- Timing bounds (deadlines, five-second channel, read timeouts) are checked with wide margins, so that a loaded machine does
  not raise alarms; a change of timing within the margin is not seen.
'''
