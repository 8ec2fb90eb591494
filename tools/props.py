PROPS = []
NOT_APPLICABLE = []
def P(id, title, statement, over, quant, why, files, mech, tech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, **kw))

# ------------------------------------------------------------------ enc
P('C01', 'JSON codec: decode accepts exactly valid JSON, encode keeps its value',
  'Decoding accepts exactly the byte strings that are one well-formed JSON value (surrounding whitespace allowed; empty input gives no value and no error) and reports every other input as an error. The decoded tree and any re-encoding of it, indented or not, denote the same value: same strings, keys, list order and number digits, character for character. Encoding a tree built in memory always gives well-formed JSON of that tree.',
  ['inputs'], 'every byte string given to the decoder and every node tree given to the encoder',
  'The tests decode a handful of well-formed documents and one malformed one; acceptance of trailing data, damaged escapes, long digit strings or deep nesting is never sampled.',
  ['enc/json.go', 'enc/enc.go', 'enc/map.go', 'enc/pairs.go', 'enc/numeric.go'], [['single value decode with exact digits', 'enc/json.go Decode'], ['encode by node', 'enc/json.go Encode']],
  'differential runtime oracle (encoding/json) over generated and damaged documents')
P('C02', 'Typed round trip: what is marshalled unmarshals to the same value',
  'For data types built from booleans, integers, floats, strings, pointers, slices, fixed arrays, string- or integer-keyed maps, dynamic values and structs (with renamed, optional and skipped fields), unmarshalling what was marshalled gives back an equal value, both through JSON bytes and directly through the intermediate nodes. Nil and empty slices, maps and pointers stay distinct (a pointer to a zero value stays one; a pointer to nil counts as nil), and marshalling a value or a pointer to it gives the same document. Reading into a variable that held something else replaces lists, maps and pointers instead of writing into them.',
  ['inputs', 'programs'], 'every such type and every value of it',
  'The tests round-trip a few fixed structs; boundary integers, nested optional pointers, maps with sized integer keys and arrays of structs are not combined.',
  ['enc/handler.go', 'enc/map.go', 'enc/list.go', 'enc/numeric.go', 'enc/scalar.go', 'enc/pairs.go'], [['reflection walk both ways', 'enc/handler.go Marshal/unmarshal'], ['omitempty', 'enc/handler.go']],
  'round-trip oracle over reflection-generated types and values')
P('C03', 'Documents interoperate with encoding/json',
  'For plain types (booleans, integers, float64, strings, pointers, slices and arrays of anything but bytes, string- or integer-keyed maps, dynamic values, structs whose tags rename or skip fields or mark numeric, string and pointer fields omitempty) the document written is the one the standard library writes, up to insignificant whitespace, and each library reads the other\'s documents to the same value. Arbitrary documents read into dynamic values (any, map[string]any, []any) give the same result as the standard library, numbers as float64 included.',
  ['inputs', 'programs'], 'every plain type, value and document',
  'One test compares a few hand-written cases with encoding/json.',
  ['enc/handler.go', 'enc/map.go', 'enc/list.go', 'enc/numeric.go', 'enc/util.go'], [['tag parsing', 'enc/util.go parseTag'], ['native values', 'enc node native()']],
  'differential runtime oracle (encoding/json) over reflection-generated types')
P('C04', 'Numbers convert exactly or are refused',
  'A number (decoded literal, integer or float node, map key) stored into any integer or unsigned type, or read through the integer accessors, gives exactly that number, its integral part if it was written with a fraction, or an error; it never wraps, saturates or changes magnitude, and an integer literal that fits is never refused. Into a floating-point type or accessor it gives the nearest representable value, or an error when the magnitude does not fit. Every Go number marshals to text denoting exactly that number, and NaN or infinities are an error in both directions.',
  ['inputs'], 'every literal, every numeric node and every numeric target kind',
  'Tests convert small numbers only; no width boundary, unsigned 64-bit, exponent or out-of-range case is sampled.',
  ['enc/numeric.go', 'enc/map.go', 'enc/handler.go'], [['per-kind conversion with range checks', 'enc/numeric.go unmarshalNumericInto']],
  'exact-arithmetic oracle (math/big) over boundary and random literals')
P('C05', 'Struct mapping touches exactly the declared fields',
  'Marshalling a struct writes exactly its exported, not-skipped fields under their declared names, leaving out optional ones that are empty (null, zero number, empty string). Unmarshalling assigns exactly the fields whose exact declared name is a key of the payload, at every depth: absent fields keep their previous value and skipped or unexported fields are never written whatever the keys (including the empty key and "-"). Each key that maps to no field is reported to the unknown-field callback exactly once with its value and a lasting path to its place, and an error from the callback fails the conversion.',
  ['inputs', 'programs'], 'every struct type, payload and prior content of the target',
  'Tests use fixed structs with matching payloads; hostile key names, pre-filled targets and nested unknown keys are not covered.',
  ['enc/map.go', 'enc/handler.go', 'enc/util.go', 'enc/pairs.go'], [['field table and unknown-key callback', 'enc/map.go unmarshalInto'], ['tag parsing', 'enc/util.go parseTag']],
  'model of the field mapping checked on generated types, payloads and pre-filled targets')
P('C06', 'Conversions never panic; mismatches are errors',
  'No document or node, however shaped, makes unmarshalling into any Go type panic or hang, and no value makes marshalling panic, including functions, channels, complex numbers, errors, interfaces with methods, unexported fields and nil pointers of types with custom conversions (which are written as null). When marshalling succeeds the output is well-formed. A document whose kind does not fit the target (a string for a number or boolean, a list for a struct, a list of the wrong length for an array, and so on, at any depth) is reported as an error rather than accepted.',
  ['inputs', 'programs'], 'every (document, target type) pair and every value of every type',
  'Tests exercise matching pairs plus a few mismatches; the pairs are unbounded.',
  ['enc/handler.go', 'enc/map.go', 'enc/list.go', 'enc/scalar.go', 'enc/numeric.go', 'enc/time.go', 'enc/nil.go'], [['kind switches returning errors', 'enc/*.go unmarshalInto']],
  'robustness monitor (panic/hang/mismatch oracle) over generated pairs')
P('C07', 'Order of fields, pairs and lists is preserved',
  'A struct is written with its fields in declaration order at every depth. An ordered pair list keeps its order wherever it appears: marshalled directly or by pointer, as a struct field, list or map element, dynamic value, result of a custom conversion, and when encoded. Lists keep their order in both directions.',
  ['inputs', 'programs'], 'every struct type and pair list in every position',
  'Tests check one struct and one literal pair list.',
  ['enc/pairs.go', 'enc/handler.go', 'enc/list.go', 'enc/json.go'], [['Pairs intermediate', 'enc/pairs.go']],
  'token-order oracle over generated structs and pair lists')
P('C08', 'Conversions are safe and repeatable under concurrency',
  'Any number of goroutines may marshal, encode, decode and unmarshal at the same time, sharing values, types, handlers and decoded nodes they only read: there is no data race or crash, and every result equals the one obtained alone. This includes types seen for the first time and types with custom conversions or raw JSON.',
  ['schedules', 'inputs'], 'every interleaving of concurrent conversions over shared immutable input',
  'No test converts concurrently; servers do so on every request.',
  ['enc/handler.go', 'enc/map.go', 'enc/pairs.go'], [['warning set shared by all goroutines', 'enc/handler.go warnIneff']],
  'Go race detector plus comparison with sequential results under stress')
P('C09', 'Times and durations survive conversion exactly',
  'An instant is written as an RFC 3339 string with full nanosecond precision and reads back, through JSON or nodes, as the same instant with the same zone offset; a duration of the library\'s type is written in Go duration syntax (zero as the empty string) and reads back exactly. Time and duration nodes can be stored into the corresponding standard types and types derived from them, numbers scale to durations exactly, and text that is not a valid time or duration is an error.',
  ['inputs', 'configurations'], 'every instant between years 1 and 9998 with a whole-minute zone offset, every duration, every text',
  'One test round-trips time.Now() and a few durations.',
  ['enc/time.go', 'enc/handler.go', 'enc/numeric.go', 'enc/scalar.go'], [['Time and Duration nodes', 'enc/time.go']],
  'round-trip and format oracle over generated instants, zones and durations')
P('C10', 'Custom conversions and factories apply everywhere, once',
  'A type that defines its own node conversion (or, failing that, JSON conversion) has it called exactly once per occurrence, with the caller\'s context, wherever it is nested: struct fields, slices, arrays, maps, pointers and dynamic values, in both directions, the node form taking precedence. Raw JSON and node-typed fields receive exactly the payload they stand for, and a registered factory produces the value of its type at every depth, reached by value, pointer, list or map. An error from any of them, or a factory result of the wrong type, fails the whole conversion.',
  ['inputs', 'programs'], 'every nesting of such types',
  'Tests place hooks at one or two fixed positions; factories are not tested at all.',
  ['enc/handler.go'], [['type switch before reflection', 'enc/handler.go Marshal/unmarshal'], ['Factory', 'enc/handler.go']],
  'call-recording hooks over generated nestings')
P('C11', 'Node pipe delivers each node once, in order, until closed',
  'Every node whose write on one end of a pipe succeeded is read exactly once on the other end, in the writer\'s order, before end-of-stream is reported; the two directions are independent. After close, writes fail with an error rather than a panic, repeated closes are harmless, and readers see end-of-stream once drained. A blocked read or write returns an error when its context is cancelled.',
  ['schedules', 'histories'], 'every interleaving of writers, readers, cancellation and close, for every capacity',
  'The pipe has no concurrent test.',
  ['enc/util.go'], [['channel pair with recover on close', 'enc/util.go Pipe']],
  'exactly-once / FIFO history checker over concurrent runs')

# ------------------------------------------------------------------ api
P('C12', 'API fields only travel in their declared direction',
  'A client request carries exactly the fields declared in or both, under their wire names (the enc tag, else the json tag, else the Go name), and the server reads exactly those from it: whatever other keys the request has, fields declared out only, shared state and unexported fields keep the values they had. Likewise a response carries exactly the fields declared out or both, and the client updates exactly those that are present in it. Values arrive equal to what was sent; a request body that is not a JSON object (or empty) is an error.',
  ['inputs', 'programs'], 'every operation type and every payload in both directions',
  'Tests run two operations with matching payloads; hostile keys aimed at output, state or identity fields never occur.',
  ['api/handler.go', 'api/json.go', 'api/tag.go'], [['direction lists built once per type', 'api/handler.go NewHandler'], ['field by field transfer', 'api/handler.go Send/Recv']],
  'model of the direction rules over generated operation types and hostile payloads')
P('C13', 'Required and auth fields are enforced before the operation exists',
  'A request in which a required field is absent, null or zero is refused with an error naming such a field, and one whose fields are set is not refused. An auth field is filled only from the identity established by the server, never from the payload; if it is marked required, a request without identity is refused, and if it is not, the field stays zero without one. A refused request yields no object.',
  ['inputs', 'programs'], 'every operation type, payload and identity',
  'One test sends one empty request.',
  ['api/handler.go', 'api/json.go', 'api/tag.go'], [['required check', 'api/handler.go Server.Recv'], ['identity only from UID', 'api/json.go Auth']],
  'model of acceptance over generated operation types, payloads and identities')
P('C14', 'Requests are isolated from each other and share only the template state',
  'Every request is received in an object of its own whose request, response and identity fields hold nothing from the template or from any other request, however many run at once. The fields of the template without a direction, exported or not, are copied into each request: references (pointers, maps, slices, channels, functions) designate the same shared thing, and a request changing its own copies affects no other request nor the template. Receiving and sending concurrently is free of data races.',
  ['schedules', 'histories'], 'every interleaving of requests on one server and every template',
  'The tests handle one request at a time and never look at the template again.',
  ['api/handler.go', 'api/json.go'], [['template copied per request', 'api/handler.go Server.Recv']],
  'Go race detector plus per-request isolation oracle under concurrent load')
P('C15', 'The OpenAPI document describes what is on the wire',
  'For every supported type the schema lists, at every depth, exactly the fields the wire has, with their types, documentation and examples; every reference resolves, recursive types terminate, and the document written for any value of the type conforms to the schema (null, dynamic and raw values aside). An operation is documented at its URLs with exactly its request and response fields, exactly its required ones, and a security scheme that admits anonymous requests only if auth is not required. Unsupported types are an error, each time, and leave nothing half-described.',
  ['programs', 'inputs'], 'every type and operation, and every value of the type',
  'One test inspects the schema of one struct; conformity of documents to schemas is never checked.',
  ['api/openapi/schema.go', 'api/openapi/openapi.go', 'api/openapi/path.go', 'api/handler.go'], [['schema by reflection', 'api/openapi/schema.go schemaFromType'], ['operation documented', 'api/handler.go UpdateOpenAPI']],
  'schema validation oracle over generated types, values and operations',
  note='Held on the types and values generated, except for the known finding about []byte (KNOWN_FINDINGS.txt).')

# ------------------------------------------------------------------ http
P('C16', 'HandleRequest delivers the body whole and the response intact',
  'A function registered with HandleRequest is called once per request with exactly the bytes the client sent, and a request whose body cannot be read in full is answered as a client error without the function running. When it succeeds with data the client receives exactly those bytes as a 200 JSON response, compressed with gzip only if the request\'s Accept-Encoding admits gzip and marked as such; with no data the answer is 204. Concurrent requests never see each other\'s bytes.',
  ['inputs', 'schedules'], 'every request (method, body, headers), response size and interleaving of clients',
  'The tests send small bodies one at a time, and never a response above the compression threshold.',
  ['http/server.go', 'http/mux.go'], [['read, call, reply', 'http/server.go handleRequest'], ['gzip decision', 'http/server.go handleRequest']],
  'transcript oracle over real TCP connections under concurrent load, race detector on')
P('C17', 'Errors map to their status and internal ones leak nothing',
  'The error a handler returns decides the status sent: the outermost HTTP status found by unwrapping it, else 500. Below 500 the client of a JSON endpoint is told the error text and the tracking id; from 500 up the response holds nothing of the error text or its causes, only the tracking id of the request, which is fresh for each. A panicking handler harms no other request and reveals nothing.',
  ['inputs', 'schedules'], 'every error value and nesting, for every kind of handler',
  'Tests check three error shapes; that no internal text ever reaches a client is a statement about every error.',
  ['http/server.go', 'http/error.go', 'http/call.go', 'http/api.go'], [['status by unwrapping', 'http/error.go ErrorCode'], ['redaction', 'http/server.go handleRequest']],
  'planted-secret leak monitor and status oracle over generated error chains')
P('C18', 'Operations over HTTP: Do runs once per valid request, never otherwise',
  'Calling a registered operation through the HTTP client runs its Do exactly once on a server-side object holding the request fields, and the client object receives the response fields Do set, or an error with the status Do failed with. A request that is malformed, mistyped, truncated or lacks a required field is refused with a 4xx status and Do does not run. Identity and state fields never come from the payload, and concurrent calls do not mix.',
  ['inputs', 'schedules'], 'every operation call, every request body and every interleaving',
  'Tests make a few well-formed calls one after the other.',
  ['http/api.go', 'http/client.go', 'api/handler.go', 'api/json.go'], [['receive, Do, send', 'http/api.go RegisterAPI'], ['client call', 'http/client.go API']],
  'exactly-once ledger of executions reconciled with client outcomes, hostile bodies, race detector on')
P('C19', 'Every request is measured once, and statuses pass through unchanged',
  'After any mix of concurrent requests the request metric has, for each method, path and status, exactly as many observations as requests were answered so, whichever way the handler was registered. The status and body a client receives are those the handler wrote: the first final status counts, informational ones do not, and writing nothing is a 200.',
  ['histories', 'schedules'], 'every history of requests, every handler behaviour and every interleaving',
  'No test reads the metric back.',
  ['http/mux.go', 'http/server.go', 'http/metrics.go'], [['status recording response', 'http/mux.go response'], ['one observation per request', 'http/server.go NewServer']],
  'conservation check of metric counts against the requests made, over TCP')
P('C20', 'Probes always answer with the state that was set',
  '/live answers 204 whatever else happens, and /ready answers the readiness last set (204 at first), even while handlers are stuck and readiness is being changed; the metrics and monitoring pages, once set up, answer too. /openapi.json is always a well-formed document that holds every path registered so far.',
  ['histories', 'schedules'], 'every history of readiness changes and registrations and every interleaving with probes',
  'No test probes a server while its state changes.',
  ['http/server.go'], [['atomic readiness', 'http/server.go SetReady'], ['openapi endpoint', 'http/server.go NewServer']],
  'online monitor of probe answers while state changes, race detector on')
P('C21', 'HTTP server: shutdown completes only after in-flight requests are answered',
  'While a server is listening, shutdown is not complete. When it begins, by call or by signal, the server stops accepting connections, every request already being handled runs to its end and its client receives the whole response, and only then does shutdown complete, which it always does once handlers return (the server waits 30 s for them at most). Listen always returns, whether the shutdown began before, during or after it.',
  ['schedules', 'histories'], 'every set of requests in flight and every moment of the shutdown',
  'No test shuts a listening server down.',
  ['http/server.go', 'shutdown/shutdown.go'], [['hold while serving', 'http/server.go Listen'], ['graceful stop', 'http/server.go Listen']],
  'ordering monitor over server processes shut down with requests in flight, race detector on')
P('C22', 'HTTP client: every outcome is reported, nothing leaks',
  'A client call returns the whole body of a 200, nothing for a 204, and for any other status an error from which that status can be read; refused, dropped, cut short or unparsable responses and operations without url are errors, never partial success. Cancelling the context ends the call promptly with the cancellation as the cause. However calls end, their connections are closed or reused, so sequential calls never accumulate connections.',
  ['inputs', 'histories', 'fault_sequences'], 'every server behaviour, sequence of calls and moment of cancellation',
  'Tests call a well-behaved server a few times; a leak only shows over a history of failing calls.',
  ['http/client.go', 'http/error.go'], [['status to error', 'http/client.go Do'], ['API call', 'http/client.go API']],
  'fault-injecting scripted server with connection accounting')
P('C23', 'Bodies are read completely, bounded in size and in time',
  'ReadAll returns exactly the bytes read until the end or the error, however the reader hands them out, and returns promptly with an error and the bytes so far when its context is cancelled; it closes what it was given. A CallHandler gets exactly the body of each request within its limit, once, and its output is the response; a longer body is refused without running it, and a body that stalls is refused once its read timeout passes.',
  ['inputs', 'schedules'], 'every chunking, failure and stall of the reader, and every body size',
  'One test reads one buffer and one blocked pipe; no test sends a large or stalled body.',
  ['utils/io.go', 'http/call.go'], [['cancellable read', 'utils/io.go ReadAll'], ['limits', 'http/call.go Register']],
  'scripted readers and raw TCP clients against a byte-exact oracle, race detector on')

# ------------------------------------------------------------------ ws
P('C24', 'WebSocket calls run one at a time, in order, each answered exactly once',
  'The messages of one connection are processed one at a time in the order the client sent them, whatever channels they address and however they are pipelined or split on the network. Each call runs its method exactly once with the argument sent, and the client receives the replies of the method in the order it made them, followed by exactly one return frame on the same channel and path, which carries the error text if and only if the call failed. Different connections proceed independently.',
  ['schedules', 'histories', 'inputs'], 'every script of calls, pipelining and interleaving of connections',
  'The tests send a handful of calls, waiting for each, on one connection.',
  ['http/ws/conn.go', 'http/ws/rpc.go', 'http/ws/channel.go', 'http/ws/reflect.go'], [['serial loop', 'http/ws/conn.go Loop'], ['routing', 'http/ws/rpc.go onFrame'], ['return frames', 'http/ws/reflect.go build']],
  'exact frame streams compared with a serial model, plus an overlap monitor inside the objects, over TCP with the race detector on')
P('C25', 'WebSocket channels are isolated objects with a life of their own',
  'Opening a channel makes a fresh object: exported non-zero fields of the registered one are copied, unexported ones stay zero, Init runs once first, and no state is shared with any other channel or connection. Only methods meant for the client can be called, and only on channels this connection opened and has not closed. Closing a channel affects no other channel, is acknowledged, and the same identifier can then be opened again as a fresh object.',
  ['histories', 'schedules'], 'every history of opens, calls, closes and reopenings on concurrent connections',
  'The tests open one channel and never close it alone.',
  ['http/ws/rpc.go', 'http/ws/handler.go', 'http/ws/reflect.go', 'http/ws/channel.go'], [['object per channel', 'http/ws/reflect.go build'], ['channel table', 'http/ws/rpc.go onFrame']],
  'stateful model of channels compared with exact frame streams and an execution ledger')
P('C26', 'Hostile WebSocket traffic harms nobody but its sender',
  'Whatever bytes a client sends, the process keeps running, other connections keep getting exact answers, and no message that was not sent in full and well-formed is processed. Pings are answered with the same payload and pongs ignored, even between fragments; a fragmented message counts as its whole. Anything else malformed at worst ends that connection, and nothing internal is revealed.',
  ['inputs', 'fault_sequences'], 'every byte stream a client may send, next to any other traffic',
  'The tests only ever send well-formed unfragmented text frames.',
  ['http/ws/ws.go', 'http/ws/conn.go', 'http/ws/rpc.go'], [['frame reading', 'http/ws/ws.go read'], ['disconnect on error', 'http/ws/conn.go Loop']],
  'frame-level fault injection with crash, neighbour-exactness and legal-history monitors')
P('C27', 'Concurrent sends on a connection arrive whole and in order per sender',
  'Messages sent from many goroutines on one connection each arrive as one intact message, none lost or duplicated, and those of each goroutine in the order it sent them. Closing the connection at any moment, even several times at once, never tears or interleaves messages and never races. Sending a value that cannot be written is an error for the sender and leaves the connection usable.',
  ['schedules', 'inputs'], 'every interleaving of senders and closers and every message size',
  'No test sends from two goroutines.',
  ['http/ws/ws.go', 'http/ws/conn.go', 'http/ws/channel.go'], [['write lock', 'http/ws/ws.go wsImpl']],
  'Go race detector plus frame-level integrity, order and conservation oracle')
P('C28', 'WebSocket failures are reported to the client and contained',
  'An object whose Init fails is not opened: the client is told the error on that channel, its methods cannot be called, and other channels go on. A failing method, a refused connection, a failing data handler (reported in a disconnect frame), a panic or a cancelled context affects at most its own connection, which then processes nothing further, and releases what it held so that shutdown completes. Registering what cannot be served is an error, never a crash.',
  ['inputs', 'fault_sequences', 'histories'], 'every failure of application code at every point',
  'No test makes Init, OnConnect or OnData fail.',
  ['http/ws/handler.go', 'http/ws/conn.go', 'http/ws/channel.go', 'http/ws/reflect.go'], [['Init error', 'http/ws/handler.go Register'], ['panic recovery', 'http/ws/channel.go onData'], ['hold per connection', 'http/ws/handler.go Server']],
  'fault injection into application callbacks with containment and reporting oracles')
P('C29', 'WebSocket test client: each call gets its own outcome',
  'With the local test client each call returns when that very call is over: nil if it succeeded, its error if it failed, the error of the frame callback if that refused one of its frames, never the outcome of an earlier call, even one that was given up. By the time a successful call returns, all its frames have been given to the callback in order. Channels can be used concurrently, and calls end once the client is closed.',
  ['histories', 'schedules'], 'every sequence of calls and outcomes on concurrent channels',
  'The tests make two successful calls in a row.',
  ['http/ws/test.go'], [['call outcome', 'http/ws/test.go Open'], ['frame routing', 'http/ws/test.go testWS']],
  'call/outcome pairing oracle over random scripts on concurrent channels, race detector on')

# ------------------------------------------------------------------ shutdown
P('C30', 'Shutdown completes exactly when nothing holds it',
  'The channels given by Done are closed as soon as no hold is left, and never while one taken before the call is still held; holds may come and go from any goroutine at any moment. Started is closed by the first Begin and not before, Started5Sec about five seconds later and never earlier, and beginning again, also concurrently, changes nothing. HoldAndWait returns once the shutdown has started, holding it from the moment it was called.',
  ['schedules', 'histories'], 'every interleaving of holds, releases, waits and beginnings',
  'One test runs one fixed sequence of a hold, a start and a release.',
  ['shutdown/shutdown.go', 'shutdown/accessors.go'], [['hold counter', 'shutdown/shutdown.go hold/release/done'], ['start broadcast', 'shutdown/shutdown.go begin']],
  'bracketing monitor counting holds around every call, over processes under stress, race detector on')
P('C31', 'Signals escalate from graceful shutdown to cancellation to exit',
  'While a process waits for signals, the first SIGINT, SIGTERM or SIGQUIT starts the shutdown and cancels nothing, the second cancels the root context, and the third ends the process with a non-zero status. The wait returns as soon as the shutdown is complete and not while a hold is left, and the process then ends with success.',
  ['histories', 'schedules'], 'every sequence of signals with and without holds',
  'No test sends a signal.',
  ['shutdown/shutdown.go'], [['escalation', 'shutdown/shutdown.go waitForSignal']],
  'real processes sent scripted signals, their progress lines and exit status compared with the rule')

# ------------------------------------------------------------------ storage
P('C32', 'Key-value storage is linearizable and owns its values',
  'Concurrent Get, Upsert and Delete on the in-memory table behave as if each took effect at one moment between its call and its return, and a Range gives every key that was there throughout, with a value it had meanwhile, none that was absent throughout, and none twice. A stored value can only be changed by Upsert: neither what was passed in nor what was given out is shared with the table.',
  ['schedules', 'histories'], 'every concurrent history of operations',
  'One sequential test on three keys.',
  ['storage/keyvalue.go'], [['table lock', 'storage/keyvalue.go memKeyValue'], ['copies in and out', 'storage/keyvalue.go clone']],
  'linearizability checking (porcupine) of recorded histories, aliasing probes, race detector on')
P('C33', 'Range gives exactly the rows its filters select',
  'A Range calls back once for each row all filters accept, and for no other. Equal and not-equal compare the JSON values of the field and the operand, whatever node types hold them, an absent field counting as null; an operator that is not supported and a value with no JSON form are errors, never a silent selection. When the callback returns the end-of-data error the scan stops without error, any other error stops it and is returned, and the callback may use the table.',
  ['inputs', 'histories'], 'every table, set of filters and callback behaviour',
  'One test filters two rows by one string.',
  ['storage/keyvalue.go', 'storage/filter.go'], [['filter evaluation', 'storage/keyvalue.go Filter.Check'], ['scan', 'storage/keyvalue.go Range']],
  'model of the table and of JSON equality over random tables and filters')

# ------------------------------------------------------------------ caches
P('C34', 'The LRU cache stays within its size and evicts the least recently used',
  'After every Get the total size of the entries of an LRU is at most its maximum, a hit gives the value that was fetched and makes its entry the most recent, and when room is needed exactly the least recently used entries are dropped, as few as needed. Failures and values of size zero are passed on and never kept, and an invalidated key is fetched again. What the cache reports about itself agrees with this.',
  ['inputs', 'histories', 'schedules'], 'every sequence and interleaving of requests, sizes, failures and invalidations',
  'Tests use a few keys of equal size in one order.',
  ['utils/caches/lru.go'], [['heap by last use', 'utils/caches/lru.go lruHeap'], ['eviction', 'utils/caches/lru.go Get']],
  'step-by-step model of recency and size, plus outside watchers under concurrency, race detector on')
P('C35', 'Caches never serve what was invalidated, and fetch a key once at a time',
  'A Get that starts after an Invalidate of its key returned gives a value fetched after that Invalidate started, however many goroutines use the cache. Fetches of one key by the plain and LRU caches never overlap, a hit runs no fetch, and every answer is a value or an error its source really gave. A fetch runs in the context of the Get that needs it, and one that fails or panics is not kept and blocks nobody.',
  ['schedules', 'histories'], 'every interleaving of reads, writes of the source and invalidations',
  'Tests use the caches from one goroutine.',
  ['utils/caches/mem.go', 'utils/caches/lru.go', 'utils/caches/request.go'], [['invalidate under lock', 'utils/caches/mem.go Invalidate'], ['single fetch', 'utils/caches/lru.go Get']],
  'versioned source with validity brackets around every read, race detector on')
P('C36', 'The request cache fetches once per lifetime and shares the answer',
  'Concurrent requests of a key lead to one fetch, whose outcome they share; while it is fresh, value or error alike, no request fetches again, and once its lifetime is over the next request does. An outcome without lifetime serves only the request that fetched it. Requests of different keys do not wait for one another.',
  ['schedules', 'histories'], 'every interleaving of requests, durations, lifetimes and failures',
  'One test makes a few requests in sequence.',
  ['utils/caches/request.go'], [['entry lock', 'utils/caches/request.go Request']],
  'offline check of the log of fetches and answers with their times, race detector on')

# ------------------------------------------------------------------ prom
P('C37', 'Metrics count every observation exactly once',
  'Whatever the number of goroutines observing, every counter, gauge and histogram ends up with exactly what was observed for each combination of labels: totals, sums, bucket counts (cumulative, the last equal to the total) and settings. A scrape at any moment shows no less than the observations finished before it and no more than those started before its end, and never blocks or crashes an observer.',
  ['schedules', 'inputs'], 'every interleaving of observations and scrapes',
  'Tests observe a few values from one goroutine.',
  ['utils/prom/counter.go', 'utils/prom/gauge.go', 'utils/prom/histogram.go', 'utils/prom/metric.go'], [['per-series state', 'utils/prom/metric.go'], ['buckets', 'utils/prom/histogram.go']],
  'conservation oracle with brackets around every scrape, race detector on')
P('C38', 'The metrics page is well-formed and keeps every label',
  'The page of any set of registered metrics is valid in the text exposition format, each metric introduced once by its description and type. Every series reads back with exactly the label names and values it was observed with, whatever characters they hold, and with the value observed; what the page says about the process agrees with the runtime, and a page that breaks off is an error.',
  ['inputs', 'configurations'], 'every label value, description and set of metrics',
  'Tests compare a few pages with plain labels.',
  ['utils/prom/labels.go', 'utils/prom/http.go', 'utils/prom/custom.go', 'utils/prom/metric.go'], [['label escaping', 'utils/prom/labels.go'], ['page', 'utils/prom/http.go']],
  'strict parser of the exposition format as oracle over hostile labels')

# ------------------------------------------------------------------ utils
P('C39', 'The typed concurrent map is linearizable and keeps any value',
  'Concurrent operations on the typed map behave as if each took effect at one moment, and exactly one of several concurrent LoadOrStore or LoadAndDelete on a key wins. Any value of its type can be stored and comes back as it was, nil interfaces and zero values included, also when ranging and copying. Through JSON the map reads back equal.',
  ['schedules', 'histories'], 'every concurrent history of operations and every value',
  'Tests use the map from one goroutine.',
  ['utils/sync/map.go'], [['typed wrapper', 'utils/sync/map.go']],
  'linearizability checking (porcupine) of recorded histories, race detector on')
P('C40', 'A mutex with a deadline excludes, never fails on a free lock, and leaks nothing',
  'At most one goroutine holds a mutex, taken with or without a deadline. An attempt with a deadline succeeds if the lock becomes free well before it, fails once its time has passed if the lock stayed taken, and an abandoned attempt never ends up holding the lock.',
  ['schedules'], 'every interleaving of holders and attempts',
  'No test uses the mutex.',
  ['utils/sync/mutex.go'], [['attempt and give up', 'utils/sync/mutex.go TryLock']],
  'holder-counting monitor with timing bounds under stress, race detector on')
P('C41', 'The ordered map remembers insertion order',
  'After any sequence of puts and deletes the ordered map holds the value last put for each key, ranges over them in the order their keys were first put since they were last absent, and its keys, values and length agree with that. Put and Delete tell the value there was before. A range stops at the first error and returns it.',
  ['histories'], 'every sequence of operations',
  'One test runs a short fixed sequence.',
  ['utils/ordered_map.go'], [['list and index', 'utils/ordered_map.go']],
  'step-by-step comparison with a model')
P('C42', 'List helpers keep their elements',
  'Splitting gives chunks of at most the wanted size, none empty unless the input is, whose concatenation is the input; flattening concatenates, copying gives an equal list of its own, reversing and sorting keep the elements, adding a unique element keeps the others. Permute goes through every permutation exactly once and ends. The set adds and removes each element exactly once whatever goroutines do it, and pairs of a map hold each entry once.',
  ['inputs', 'schedules'], 'every list, size and concurrent use of a set',
  'Tests use one or two short lists per helper.',
  ['utils/lists/group.go', 'utils/lists/lists.go', 'utils/lists/perm.go', 'utils/lists/reverse.go', 'utils/lists/set.go', 'utils/lists/sort.go', 'utils/maps/maps.go'], [['permutation generator', 'utils/lists/perm.go'], ['chunks', 'utils/lists/group.go Split']],
  'direct definitions as oracles over random lists; race detector and winner counting for the set')

# ------------------------------------------------------------------ ctx
P('C43', 'Context tags accumulate down the tree and never change',
  'Ranging over the tags of a context gives every tag attached on its way from the root, in that order, with the JSON of the value at the time it was attached, and none of siblings or descendants; repeated keys are given each time. Cancellation, values, deadlines, detaching and tracking in between change nothing, nor does the caller reusing what it passed. A callback that returns an error stops the range with that error.',
  ['inputs', 'histories', 'schedules'], 'every tree of contexts and every tag value',
  'Tests range over a few tags of one chain.',
  ['ctx/tags.go', 'ctx/error.go'], [['tag node', 'ctx/tags.go WithTag'], ['parents first', 'ctx/tags.go RangeTag']],
  'model of the context tree, buffers scribbled on after use, race detector on')
P('C44', 'A detached context keeps values and ignores cancellation',
  'A detached context and those derived from it are never done, failed or bound by a deadline because of the contexts above the detachment, however and whenever these end, yet give all their values and tags. Contexts derived from it are cancelled by their own means only, with their own cause.',
  ['histories', 'schedules'], 'every way and moment for the parent to end',
  'One test detaches from one cancelled context.',
  ['ctx/detach.go', 'ctx/helper.go'], [['detached context', 'ctx/detach.go Detach']],
  'state probes of derived contexts around every kind of parent end')
P('C45', 'Every span has an identifier of its own',
  'Each span opened under a tracked context, by any goroutine, has an identifier no other span of it has, which starts with that of its parent; the tracking identifier of a context is the one it was given, or a fresh one. Ending a span cancels it and those within, and nothing else.',
  ['schedules', 'histories'], 'every tree of spans and interleaving of their creation',
  'No test opens two spans.',
  ['ctx/span.go'], [['span counter', 'ctx/span.go trackingCtx']],
  'uniqueness and ancestry monitor over concurrently grown trees, race detector on')
P('C46', 'Errors keep identity and origin through any wrapping',
  'An error made or wrapped with a context has the text of the formatted or wrapped error, unwraps to everything it wraps, and holds one stack starting where it was first made and the context of that place; wrapping it again, in any chain or join, adds no second stack. Wrapping nil gives nil, and unrelated errors are never recognized as one of these.',
  ['inputs', 'programs'], 'every chain of wrapping',
  'Tests wrap one or two levels.',
  ['ctx/error.go'], [['wrap once', 'ctx/error.go maybeWrap']],
  'recorded construction of random error chains as oracle')
P('C54', 'Gates trap only their own error, and stacks point at their callers',
  'ErrorGate returns nil exactly when its function returned the error that very call passed to it, wrapped or not; any other error, also that of a gate around it or of a concurrent one, is returned as it is. Stacks and callers taken at any depth name the file and line of the frames asked for, in order and no more than asked.',
  ['inputs', 'schedules', 'programs'], 'every nesting and concurrency of gates and every depth of stack',
  'One test gates one error; one takes a stack.',
  ['utils/errors.go', 'utils/stack.go'], [['gate error', 'utils/errors.go ErrorGate'], ['frames', 'utils/stack.go Stack/Caller']],
  'direct definition over random nestings; frames compared with the runtime')

# ------------------------------------------------------------------ log
P('C47', 'Every log call writes exactly one complete record',
  'With the default JSON logger each call at or above the minimum level writes one line holding one JSON object with exactly its level, formatted message, time, source line and the tags of its context, whatever names and values these have; below the minimum it writes nothing. Error arguments are listed with their text, stack and tags. Nothing passed to a log call makes it panic, and concurrent calls never mix, lose or repeat records.',
  ['inputs', 'schedules'], 'every format, argument, tag, level and interleaving of calls',
  'Tests log a dozen fixed records from one goroutine.',
  ['ctx/log/log.go'], [['record', 'ctx/log/log.go wrapSlogLogger'], ['attribute names', 'ctx/log/log.go NewDefaultSlogLogger'], ['error tag', 'ctx/log/log.go FormatMsg']],
  'every written byte parsed back and compared with the call, conservation count under concurrency, race detector on')
P('C48', 'A logger or helper attached to a context affects only it and those below',
  'A log call reaches exactly the logger attached nearest above its context, and calls exactly the helper attached nearest above it. Attaching one to a derived context, at any moment and from any goroutine, changes nothing for its parent or siblings.',
  ['histories', 'schedules'], 'every tree of contexts with loggers and helpers and every order of use',
  'Tests attach one logger to one context.',
  ['ctx/log/log.go'], [['context configuration', 'ctx/log/log.go extractConfig/withConfig']],
  'model of the tree compared with who received each record, race detector on')
P('C49', 'Redacted arguments never show, and callers keep their argument lists',
  'An argument that rewrites itself for the log is replaced by what it gives before formatting, under any verb, and its changes to the tags appear in that record; a redacted string passed as an argument never appears in the output. The argument list of the caller is left as it was, so that logging it again, also concurrently, gives the same record.',
  ['inputs', 'schedules'], 'every mix of arguments, verbs and reuse',
  'One test logs one redacted string once.',
  ['ctx/log/log.go', 'ctx/log/redacted.go'], [['replacement before formatting', 'ctx/log/log.go FormatMsg']],
  'leak scan and exact record comparison over random argument lists, race detector on')

# ------------------------------------------------------------------ config
P('C50', 'Configuration gives each field its value, its default or an error',
  'Loading a struct gives every tagged field the value its source has for the key, else its declared default, else an error naming the key, converted exactly to the type of the field: texts, integers, booleans, named types, lists, keyed lists and types that decode themselves. Values that cannot be converted and structs that cannot be loaded are errors, never panics. Untagged fields keep what they had, and the initial value given by the caller is never changed.',
  ['inputs', 'configurations'], 'every source and every supported struct',
  'One test loads two defaults.',
  ['config/config.go'], [['field loop', 'config/config.go From'], ['conversion', 'config/config.go unmarshalText']],
  'field-by-field model over random sources, panics trapped')

# ------------------------------------------------------------------ test
P('C51', 'Assertions pass exactly when what they state is true',
  'Each assertion ends its test as failed if and only if its stated relation is false: equality of Go syntax, of strings, of types, of JSON values whatever represents them (key order, spacing and number syntax ignored, integers compared in full), nilness of any value that can be nil, emptiness, errors, containment. Shift and Pop remove and return the first or last element, failing on an empty list. The verdict does not depend on how or from where the assertion was called, nor on its source being there.',
  ['inputs', 'programs'], 'every operand and every way of calling an assertion',
  'The tests of the assertions only state a few truths; a failing verdict can hardly be tested from within.',
  ['test/util.go', 'test/equals.go', 'test/nil.go', 'test/empty.go', 'test/list.go', 'test/errors.go', 'test/strings.go', 'test/assert.go'], [['verdict', 'test/util.go res'], ['JSON comparison', 'test/util.go jsonish'], ['source of the call', 'utils/ast/call_args.go']],
  'real subtests run in-process, their verdicts compared with direct definitions over random operands')
P('C52', 'The buffered stream delivers every byte in order and wakes its readers',
  'Readers of a buffered stream get exactly the bytes appended, in order, each once, then end of data once it is closed; whoever waits is woken when there is data or when it is closed, by either way of closing. What is written is recorded as it was at that moment, whole and in order, until it is closed; writing or closing after that is an error.',
  ['schedules', 'inputs'], 'every interleaving of readers, writers and closers and every size',
  'No test uses the stream with blocked readers.',
  ['test/io.go'], [['condition variable', 'test/io.go Read'], ['close', 'test/io.go Close']],
  'stream model with buffers scribbled on after use, watchdog on blocked readers, race detector on')
P('C53', 'A call can read its own source exactly',
  'A function asking for the source of the call to it gets the file and line of that call, the name it was called by and the exact text of each argument (for a function literal, of its body), and for a plain variable the text last assigned to it in the enclosing blocks. It gets an error when the source cannot be found, and nothing written in a call makes it panic.',
  ['programs'], 'every call expression whose function is called by its name',
  'One test looks at two simple calls.',
  ['utils/ast/call_args.go', 'utils/stack.go'], [['visitor', 'utils/ast/call_args.go Visit'], ['caller frame', 'utils/stack.go Caller']],
  'generated programs compiled and run, what they find compared with the text the generator wrote')

# ------------------------------------------------------------------ local
P('C55', 'An operation run locally behaves as over the wire',
  'Running an operation with the local helpers (http.TestAPI, api.Test) runs its Do exactly once, on an object of its own that holds the request fields of the caller, the shared state and the given identity and nothing else, and never when a required field or identity is missing. On success the object of the caller holds exactly the response fields Do set, its other fields untouched; any failure is reported (with the error of Do as its cause) and leaves the object as it was. An object can be used again, and calls can run concurrently.',
  ['inputs', 'histories'], 'every operation, request, identity and outcome',
  'One test makes a single successful call.',
  ['http/test.go', 'api/test.go', 'api/handler.go', 'api/json.go'], [['local round trip', 'http/test.go TestAPI'], ['in a test', 'api/test.go Test']],
  'model of the fields Do must see and the caller must get back, over random operations inside real tests, race detector on')

P('C56', 'Whatever a request does can be traced back to it',
  'Every context a request reaches a handler with, of whatever kind the handler is (websocket connections included), carries the tracking id of the request, given to no other, and as tags exactly its own path, user agent and remote address, the address of the server, and the tags and values of the context given to Listen. So does every record logged with such a context or one derived from it, however many requests run at once and however often a connection is reused. The failure of a JSON endpoint is logged, with the error, under the tracking id its client is given.',
  ['schedules', 'histories'], 'every mix of concurrent requests, kinds of handlers and ways to fail',
  'No test looks at the context of a request; an attribution that is wrong only under concurrency, on a reused connection or for one kind of handler passes.',
  ['http/server.go', 'http/ws/handler.go', 'ctx/tags.go', 'ctx/span.go', 'ctx/log/log.go'], [['context of a request', 'http/server.go NewServer'], ['context of a connection', 'http/server.go Listen'], ['errors logged', 'http/server.go handleRequest'], ['websocket connections', 'http/ws/handler.go Server']],
  'offline checker over all log records and handler contexts of a concurrent run, matched by unique agents, paths and ports')
