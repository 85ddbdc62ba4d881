RT = "random values and messages over all types (boundary integers, NaN/infinity/denormal doubles, text with control and astral characters, empty and 1..several thousand element collections, nesting to depth 60)"
prop("B01", "Binary protocol round trip",
 "Whatever sequence of messages, structs, fields, lists, sets, maps and scalars a program writes with the binary protocol, reading it back with the matching read calls gives exactly the same types, names, ids, sizes and values, in the strict, non-strict and default settings. Reading consumes exactly the bytes that were written, so that consecutive values and messages on one transport, or several protocol objects, never interfere, and binary data (which may be announced as BINARY and reads back as STRING) stays the caller's.",
 ["inputs", "histories"], "every well-formed value and message sequence, every protocol setting",
 "the tests write a handful of scalars one at a time and never nest containers, sweep sizes or put several messages on one transport",
 [BIN], [("big-endian fixed width encoding and its reader", BIN), ("message header, strict and old form", BIN)], ["protocol read calls", "bytes left on the transport"],
 ("round trip over generated messages", RT+"; write, read back, compare; several protocol objects taking turns at every transport call"))
prop("B02", "Binary protocol wire format",
 "The bytes the binary protocol writes are those of the Apache Thrift binary protocol, and it reads every message another conforming implementation writes, so peers in other languages interoperate. A versioned message header is accepted only with version 1; a strict reader refuses an unversioned header, and a non-strict reader accepts it; the strict and non-strict writers produce the versioned and unversioned header respectively.",
 ["inputs", "configurations"], "every well-formed message, every header word, every strictness setting of the reader and the writer",
 "a round-trip test passes when writer and reader share a mistake, and no test compares bytes with the specification",
 [BIN], [("version word and type byte of the header", BIN), ("integer byte order, type codes, length prefixes", BIN)], ["bytes on the transport", "protocol read calls"],
 ("differential against an independent encoder/decoder of the specification", RT+"; both directions; header words enumerated around the version bits"))
prop("C01", "Compact protocol round trip",
 "Whatever sequence of messages, structs, fields, lists, sets, maps and scalars a program writes with the compact protocol, reading it back with the matching read calls gives exactly the same types, ids, sizes and values, whatever the gaps and order of the field ids and the nesting of structs and containers. Reading consumes exactly the bytes that were written, so that consecutive values and messages on one transport, or several protocol objects, never interfere, and binary data (which may be announced as BINARY and reads back as STRING) stays the caller's; names and key/element types that the format does not carry (those of fields, structs and empty maps) are not required back.",
 ["inputs", "histories"], "every well-formed value and message sequence",
 "the tests write scalars and one fixed struct; field-id deltas, pending booleans and nesting state depend on the whole history of calls",
 [CMP], [("last field id stack and field deltas", CMP), ("boolean values folded into field headers", CMP), ("varint and zigzag coding", CMP)], ["protocol read calls", "bytes left on the transport"],
 ("round trip over generated messages", RT+"; write, read back, compare; several protocol objects taking turns at every transport call"))
prop("C02", "Compact protocol wire format",
 "The bytes the compact protocol writes are those of the Apache Thrift compact protocol, and it reads every encoding of a value the format allows (short or long field and collection headers, redundant varint groups). A message header is accepted only with the compact protocol id and version 1, and carries the message type, sequence id and name unchanged.",
 ["inputs"], "every well-formed message and every permitted encoding of it; every pair of header bytes",
 "a round-trip test passes when writer and reader share a mistake, and no test compares bytes with the specification",
 [CMP], [("type code tables", CMP), ("header bytes", CMP), ("short and long forms", CMP)], ["bytes on the transport", "protocol read calls"],
 ("differential against an independent encoder/decoder of the specification", RT+"; equivalent re-encodings; header byte pairs"))
prop("J01", "JSON protocol round trip",
 "Whatever sequence of messages, structs, fields, lists, sets, maps and scalars a program writes with the JSON protocol, reading it back with the matching read calls gives exactly the same types, ids, sizes and values, including 64-bit integers, NaN and infinite doubles, binary data and any Unicode text. Reading consumes exactly the text that was written, so that consecutive values and messages on one transport, or several protocol objects, never interfere, and binary data (which may be announced as BINARY and reads back as STRING) stays the caller's.",
 ["inputs", "histories"], "every well-formed value and message sequence whose strings are valid UTF-8",
 "the tests write single scalars and one small struct; separators and the object/list state depend on the whole history of calls",
 [JS, SJ], [("parse state stack choosing separators", SJ), ("type tags", JS), ("string escaping and base64", SJ)], ["protocol read calls", "text left on the transport"],
 ("round trip over generated messages", RT+"; write, read back, compare; several protocol objects taking turns at every transport call"))
prop("J02", "JSON protocols write and read real JSON",
 "Every message the JSON and simple JSON protocols write is one well-formed JSON text with the documented shape: the JSON protocol's version, name, type, sequence number, type tags, field-id keys and counts, and the simple JSON protocol's field-name keys. Both read the same value from any equivalent text that only differs in white space between tokens or in how string characters are escaped, and a JSON protocol message of another version is refused.",
 ["inputs"], "every well-formed message, every equivalent rewriting of its text",
 "the tests compare single scalars with the standard library's output and never look at the shape of a nested message or at foreign formatting",
 [JS, SJ], [("list and object separators", SJ), ("quoting of strings and map keys", SJ), ("type tags and counts", JS)], ["text on the transport", "protocol read calls"],
 ("differential against the standard JSON decoder and metamorphic rewriting", RT+"; text decoded by encoding/json and compared with the expected document; rewritten text read back"))
prop("S01", "Simple JSON protocol round trip",
 "Whatever sequence of messages, structs, lists, sets, maps and scalars a program writes with the simple JSON protocol, reading it back with the matching read calls gives the same names, sizes, element types and values, including 64-bit integers, NaN and infinite doubles, binary data and any Unicode text. Reading consumes exactly the text that was written, so that consecutive values and messages on one transport, or several protocol objects, never interfere, and binary data (which may be announced as BINARY and reads back as STRING) stays the caller's; field types and ids, which the format does not carry, are not required back.",
 ["inputs", "histories"], "every well-formed value and message sequence whose strings are valid UTF-8",
 "the tests write single scalars; separators and the object/list state depend on the whole history of calls",
 [SJ], [("parse state stack choosing separators", SJ), ("string escaping and base64", SJ), ("number parsing", SJ)], ["protocol read calls", "text left on the transport"],
 ("round trip over generated messages", RT+"; write, read back, compare; several protocol objects taking turns at every transport call"))
prop("K01", "Skipping a value consumes exactly that value",
 "With the binary, compact and JSON protocols, skipping a value of the announced type leaves the reader exactly behind it, so that a reader that does not know some fields still reads everything else unchanged. A value nested deeper than the limit the caller gives is refused with a depth-limit error, a value within the limit is skipped without error, and a value that the end of the data cuts short is reported.",
 ["inputs", "histories"], "every message, every selection of values in it that a reader skips, every depth limit, every cut of a skipped value",
 "no test skips anything; what skipping consumes depends on type, nesting and protocol state",
 [PROTO, BIN, CMP, JS], [("generic recursive skip", PROTO), ("per-protocol entry points", CMP)], ["protocol read calls after a skip", "error returned by the skip"],
 ("metamorphic: read the same message with and without skipping", "random messages, random subset of values at every level skipped; depth limits 0..depth+3; cuts at every position of a skipped value"))
prop("R01", "Malformed input is refused soberly",
 "Whatever bytes arrive, every protocol's reader returns a value or an error: it never panics, never loops forever and never takes time or memory out of proportion to the data that actually arrived, whatever sizes the data announces. The binary and compact readers refuse what their format forbids, such as negative sizes, unknown type codes where an element follows and over-long integers, and read everything else as the format defines it.",
 ["inputs"], "every byte string and every announced size",
 "the tests feed only what the library itself wrote",
 [BIN, CMP, JS, SJ, L+"ttransport.go"], [("length checks", BIN), ("varint and size checks", CMP), ("string and number parsers", SJ), ("reading in steps", L+"ttransport.go")], ["values and errors of the read calls", "CPU time and allocation"],
 ("mutation fuzzing with CPU/allocation bounds and a differential decoder", "damaged messages, random bytes, token soup; read by announced types, by schema and by skipping; effort bounded in proportion to the input; binary and compact compared with an independent decoder"))
prop("R02", "Truncated input is reported",
 "When the data ends before a message is complete, reading that message reports an error, with every protocol and at whatever byte the data ends; no reader makes up the missing part.",
 ["inputs", "crash_points"], "every message, every prefix of its encoding",
 "no test ends the data early",
 [BIN, CMP, JS, SJ, L+"ttransport.go"], [("full reads", L+"ttransport.go"), ("JSON end-of-data handling", SJ)], ["error of the first read call that needs missing data"],
 ("exhaustive truncation of generated messages", "random messages; every prefix up to 300 bytes, sampled beyond"))
prop("R03", "Transport failures surface",
 "When the transport fails while a message is written, flushed or read, some call of that operation returns an error: no protocol reports success for data that did not get through, and none panics. This holds for every protocol, plain or over the framed, stream and socket transports, at whatever byte the failure happens.",
 ["fault_sequences"], "every message, every byte position of the failure, writing, flushing and reading",
 "no test injects a transport failure",
 [BIN, CMP, JS, SJ, L+"tframed_transport.go", L+"tiostream_transport.go"], [("error propagation in write calls", SJ), ("flush", L+"tframed_transport.go")], ["errors of the write, flush and read calls"],
 ("fault injection at every byte of generated messages", "random messages; failure after every byte count (all up to 120, else 25 samples) and at the flush; plain, framed, stream and socket transports"))
prop("R04", "Delivery in pieces does not matter",
 "What a protocol reads from a transport does not depend on how the transport divides the data: single bytes, arbitrary pieces, or the last piece together with the end of data give the same values as one block. This holds for every protocol, plain or over the framed, stream and socket transports.",
 ["inputs", "schedules"], "every message sequence, every division of its bytes into pieces",
 "the tests use a memory buffer, which always delivers everything at once",
 [BIN, CMP, JS, SJ, L+"ttransport.go", L+"tframed_transport.go"], [("full reads", L+"ttransport.go"), ("buffered JSON reading", SJ)], ["protocol read calls"],
 ("metamorphic: same bytes, random pieces", "random message sequences delivered in random pieces of 1..5000 bytes"))
prop("R05", "A complete message is read without waiting for more",
 "Once all bytes of a message have arrived, it can be read or skipped to its end without asking the transport for anything behind it, so that on an open connection a request is handled and a reply returned although the other side sends nothing further. This holds for every protocol, plain or over the framed, stream and socket transports, whatever comes last in the message and however it was delivered.",
 ["inputs", "histories", "schedules"], "every message, every division of its bytes into pieces",
 "the tests read from memory, where asking for too much is answered by the end of the data instead of waiting for ever",
 [BIN, CMP, JS, SJ, L+"tframed_transport.go", L+"tiostream_transport.go"], [("looking ahead", SJ), ("white space after a value", SJ), ("next frame only when one is used up", L+"tframed_transport.go")], ["reads at the transport"],
 ("monitored transport over generated message sequences", "random messages, many as short as can be, that arrive one at a time and in pieces, also with white space and escapes of other writers; any read that finds the transport empty is a violation"))
FR, MB, IO, TT = L+"tframed_transport.go", L+"tmemory_buffer.go", L+"tiostream_transport.go", L+"ttransport.go"
SO, NS, SS, NSS, NT, HC = L+"tsocket.go", L+"tnonblocking_socket.go", L+"tserver_socket.go", L+"tnonblocking_server_socket.go", L+"tnonblocking_transport.go", L+"thttp_client.go"
SV, NSV, AE = L+"tsimple_server.go", L+"tnonblocking_server.go", L+"tapplication_exception.go"
LI, SE, MA, TY, FI, ST, NU, CP = L+"tlist.go", L+"tset.go", L+"tmap.go", L+"ttype.go", L+"tfield.go", L+"tstruct.go", L+"tnumeric.go", L+"tcompare.go"
GEN = "tests/generation/golden/gen-go/simple/"
prop("T01", "Framed transport carries the byte stream in frames",
 "Everything written to a framed transport before a flush goes out as one frame, a 4-byte big-endian length followed by exactly those bytes, and nothing reaches the underlying transport earlier. Reading gives the frames' contents as one continuous byte stream, however the underlying transport divides it and whatever the sizes of frames (empty ones included) and of the reads; when the data ends, all complete frames have been delivered and an error follows. Opening, closing, peeking and asking for the state go to the underlying transport.",
 ["histories", "inputs"], "every history of writes, flushes and reads, every sequence of frames, every cut of it",
 "the tests run one shared transport test with a few fixed sizes; frame boundaries inside reads depend on the whole history",
 [FR, TT], [("write buffer and length prefix", FR), ("reading the next frame when one is used up", FR)], ["bytes on the underlying transport", "results of the read calls"],
 ("model-based histories against a byte queue", "random histories of writes, flushes and reads over one or two framed transports; foreign frames delivered in pieces and cut anywhere; sizes 0..70000"))
prop("T02", "A memory buffer is a byte queue",
 "Whatever mixture of calls is used, a memory buffer gives back exactly the bytes written to it, in order and once each, and says correctly how many are left; reading more than is there is reported. Closing or resetting it empties it, and it is open at all times; a buffer that a factory makes is empty and shares nothing with another.",
 ["histories"], "every history of calls, every buffer size",
 "the tests write and read a few fixed blocks",
 [MB, TT], [("reading, writing and state", MB), ("factory", MB)], ["results of all calls", "length and content"],
 ("model-based histories against a byte queue", "random histories of all public calls, sizes 0..70000"))
prop("T03", "Stream transports pass bytes through faithfully",
 "A stream transport made from a reader, a writer or both delivers the reader's bytes in order and without loss, and after a flush the writer has received everything written, in order and once. A direction that is not there, or a transport that is closed, refuses to read, write or flush with an error instead of losing data or crashing, and the open state is reported accordingly.",
 ["histories"], "every history of writes, flushes, reads and closing over transports from every constructor and the factory",
 "the tests use one read-write stream in one fixed sequence",
 [IO, TT], [("buffered reader and writer", IO), ("state per direction", IO)], ["bytes at the writer", "results of all calls"],
 ("model-based histories against byte queues", "random histories with data arriving in pieces over every constructor, buffered and not, sizes 0..70000"))
prop("T04", "Reading a full block gives all of it or an error",
 "A full read of n bytes from any transport either fills the whole buffer without an error or reports an error; it never reports success for less, and never an error when all n bytes arrived, even if the stream ends or fails exactly there. Nothing behind those n bytes is consumed or lost, and a read of nothing succeeds.",
 ["inputs", "schedules", "fault_sequences"], "every sequence of read sizes, every division of the data into pieces, every way the data can end",
 "the tests' streams always deliver everything at once and never end or fail within a read",
 [TT, FR, IO, MB, SO], [("loop over partial reads", TT)], ["count and error of full reads"],
 ("generated read sequences over faulty streams", "random read sizes over every transport, data in pieces, ending in end-of-file or a failure, alone or along with the last bytes"))
prop("T05", "Sockets deliver what was written and keep their state",
 "Over sockets of every kind, data that was written and flushed arrives completely and in order at the other end, and nothing of it twice or on a later connection of the same object; a buffering socket sends nothing before the flush. Opening, closing, accepting and asking for the state behave consistently through any history: using a closed socket, opening an open one, or an unusable address is refused with an error, a closed socket can be opened again, and the peer sees the close. A configured timeout bounds each read and each flush, that of a server socket those of the connections it accepts, and failures of the connection reach the caller.",
 ["histories", "fault_sequences"], "every history of open, accept, write, flush, read, timeout and close, every failure of the connection",
 "the tests open one connection at most; state after closing, timeouts and failures are never exercised",
 [SO, NS, SS, NSS, NT], [("buffered writing and flush", SO), ("deadlines from the timeout", SO), ("listening and accepting", SS), ("open state", NSS)], ["results of all calls at both ends", "bytes and deadlines at the connection"],
 ("model-based histories over scripted and loopback connections", "random histories over a scripted connection with pieces, failures and timeouts, and over real loopback connections between every kind of socket"))
prop("T06", "HTTP client sends each request and reads its response",
 "Each flush of the HTTP client sends one POST whose body is exactly what was written since the last flush, and the reads that follow give exactly the body of its response, however it is divided; a client made for GET reads the body of that response. A response with an error status, or a request that cannot be sent, is reported by the flush, leaves no data to read, and neither repeats nor mixes into the next request; responses are released, so that many requests do not pile up connections.",
 ["histories", "fault_sequences"], "every history of writes, flushes, reads and closing, every server behaviour",
 "the tests send one fixed request to a server that answers well",
 [HC], [("request buffer", HC), ("sending and keeping the response", HC)], ["requests at the server", "results of all calls", "connections at the server"],
 ("model-based histories against a scripted HTTP server", "random histories with bodies of 0..70000 bytes in pieces, error statuses, broken responses and a server that is down"))
prop("V01", "Servers answer every request in order, once, where it came from",
 "A server handles every request that arrives completely exactly once, in the order of its connection, and writes the reply to that connection through the configured transports and protocols; nothing is sent for a one-way request. A connection that ends, stalls, sends rubbish or whose handler fails is closed and disturbs no other connection; every accepted connection is closed in the end.",
 ["schedules", "histories", "configurations"], "every interleaving of clients, every division of their requests, every constructor and protocol/transport combination",
 "the tests start no server",
 [SV, NSV, L+"tprocessor_factory.go", L+"tprotocol_factory.go", L+"ttransport_factory.go"], [("accept loop", SV), ("per-connection processing", NSV), ("factories per direction", NSV)], ["handler calls", "bytes at the clients", "closing of connections"],
 ("random schedules of clients over in-memory connections", "random histories of clients connecting, sending whole, partial, pipelined, one-way and failing requests, reading and leaving, on both servers with every constructor, protocol and transport"))
prop("V02", "Generated clients and services understand each other",
 "A call through a generated client gives the handler exactly the arguments and the caller exactly the result, whatever their values, over every protocol and for any number of calls on a connection. Arguments may come in any order and with unknown fields; an unknown method, unreadable arguments or a handler error is answered with the matching exception for that sequence number and reported to the caller, and the connection stays usable; an answer out of sequence is refused. A request that ends early is reported and never handled.",
 ["histories", "inputs", "crash_points"], "every history of calls, all argument and result values, every cut of a request",
 "the tests only compare the generator's output with golden files; no generated code runs",
 [GEN+"ContainerOfEnumsTestService.go", GEN+"ttypes.go", PROTO, AE, BIN, CMP, JS, SJ], [("client send and receive", GEN+"ContainerOfEnumsTestService.go"), ("processor dispatch", GEN+"ContainerOfEnumsTestService.go"), ("struct reading and writing", GEN+"ttypes.go")], ["handler arguments", "results and errors at the caller", "bytes on the connection"],
 ("model-based call histories through generated code", "random histories of calls through the generated sample client and processor, or by hand with reordered and unknown fields; requests cut at every byte; five protocol settings"))
prop("V03", "Application exceptions arrive as they were sent",
 "An application exception read back from a message has the type and the message it was sent with, over every protocol and in any sequence with other messages. Reading takes the fields in any order, skips unknown and mistyped fields, tolerates missing ones, and consumes exactly the exception; a failure while writing or reading one is reported.",
 ["inputs", "histories", "fault_sequences"], "every exception, every struct another version could have written, every failure position",
 "the tests compare constructors only and never write or read an exception",
 [AE], [("reading", AE), ("writing", AE)], ["type and message of the exception read", "bytes left on the transport", "errors"],
 ("round trip, foreign encodings and fault injection", "random sequences of messages with exceptions from every constructor or by hand with missing, reordered, unknown and mistyped fields; failures and ends of data at every byte"))
prop("V04", "A server can be stopped at any moment and started again",
 "Stop, called while a server is serving, from a handler or any other thread, while it waits for a connection or works, makes it return without taking another connection; requests in progress finish, and the server says that it is stopped. A failure to listen or to accept ends serving with that error; afterwards the server can serve again, and no use of a server's methods from several threads is a data race.",
 ["schedules", "fault_sequences"], "every moment of stopping relative to connections and requests, every failure of listening and accepting",
 "the tests start no server",
 [SV, NSV, SS, NSS], [("stop flag", SV), ("stop flag", NSV), ("interrupting a blocked accept", SS), ("interrupting a blocked accept", NSS)], ["return of serving and stopping", "calls to the server transport", "race detector"],
 ("random schedules with the race detector", "random lives of both servers on in-memory and loopback connections: failures, Stop at random moments from handlers and threads, several clients, starting again"))
prop("D01", "A thrift list behaves as a list of values of its type",
 "After any history of pushing, popping, setting, inserting, deleting and swapping, a list has exactly the elements that these operations on a sequence give, by position, by iteration and in its length; setting behind the last position appends. It finds an element by value for every element type, including binary data, structs and containers, and says which of two elements is smaller. Values of another kind are converted to the element type or, if they cannot be, left out; a list without a type takes that of its first element; iterating may be abandoned without holding anything back.",
 ["histories", "inputs"], "every history of operations, every element type and value",
 "no test uses a list",
 [LI, TY], [("operations on the slice", LI), ("search by value", LI)], ["results of all calls"],
 ("model-based histories against a slice", "random histories over pools of equal and nearly equal values of all types nested to depth 2; the content is compared after each operation"))
prop("D02", "A thrift set holds each value once",
 "After any history of adding and removing, a set has exactly the values added and not removed since, each once, whatever their order, and its length, membership and iteration in both directions agree on that; this holds for every element type, including binary data, structs and containers. The order of its values depends only on the values, so sets with the same values are equal however they were built, and different ones are not and are ordered one way. Values of another kind are converted to the element type or, if they cannot be, left out.",
 ["histories", "inputs"], "every history of operations, every element type and value",
 "no test uses a set",
 [SE, TY], [("ordered insertion", SE), ("search by value", SE)], ["results of all calls"],
 ("model-based histories against a set of canonical keys", "random histories over pools of equal and nearly equal values of all types nested to depth 2; the content is compared after each operation"))
prop("D03", "A thrift map holds one value per key",
 "After any history of setting, a map gives for each key the value set last and finds nothing for other keys, for every key type, including bools, binary data, structs and containers; its length, keys, values and iterators agree on that. Keys and values come in an order that depends only on the content, so maps with the same content are equal however they were built, and different ones are not and are ordered one way. Keys and values of another kind are converted to the types of the map or, if they cannot be, left out; iterating may be abandoned without holding anything back.",
 ["histories", "inputs"], "every history of operations, every key and value",
 "the tests set and get a few string keys",
 [MA, TY], [("storage per key type", MA), ("sorted keys", MA)], ["results of all calls"],
 ("model-based histories against a map of canonical keys", "random histories over pools of equal and nearly equal keys and values of all types nested to depth 2; the content is compared after each operation"))
prop("D04", "Comparing values is a total order that agrees with equality",
 "For every type, comparing two values of it is antisymmetric and transitive, is zero exactly for equal values, however they were built, and puts an unset value before every other; the less-than and equality operations agree with it, and numbers, bools, text and binary data have their natural order. Structs, generated ones included, compare by name, fields and attributes, containers by types and elements. Comparing values that do not belong to the type never panics, and gives opposite answers for opposite arguments.",
 ["inputs"], "all pairs and triples of values of a type (other than NaN), all pairs of any values",
 "no test compares containers or structs",
 [TY, CP, LI, SE, MA, ST, FI], [("comparison by type", TY), ("comparison helpers", CP)], ["results of the comparison calls"],
 ("algebraic laws over generated triples", "three random values of one type, often equal or nearly equal, nested to depth 2; any two Go values by any type"))
prop("D05", "Conversion between Go values, numbers and thrift types",
 "Converting a Go value to a thrift type gives a value of that type: whole numbers and enum values of every Go type, named types included, convert as Go converts them, floats lose their fraction, bools are 0 and 1, decimal text gives its number and numbers their decimal text, bytes and text convert to each other. What has no meaning for the type, such as other text as a number or one kind of container as another, is refused. The type of a Go value, the classes and names of type codes, and numbers made from one representation and asked for another are consistent with this.",
 ["inputs"], "every Go value, every type, every number",
 "the tests convert nothing",
 [TY, NU], [("conversion by type", TY), ("numbers", NU)], ["results of the conversion calls"],
 ("differential against a table of conversions", "random values of every Go kind, biased to boundaries, converted to every type; numbers from each representation to each other; all 256 type codes"))
prop("D06", "Struct and message descriptions say what was declared",
 "A struct description gives every declared field by id and by name, in the order of the ids whatever the order of the declaration, and reports undeclared ids and names as absent. Descriptions with the same fields are equal and compare as equal in any order of declaration; with another id, another type or a field less they are not. Single fields and messages keep their name, type and number, compare by them and show them as text.",
 ["inputs"], "every list of fields, every lookup",
 "no test looks at descriptions",
 [FI, ST, L+"tmessage.go"], [("lookup tables", FI), ("order and comparison", FI)], ["results of all calls"],
 ("model-based lookups and metamorphic reordering", "random lists of up to 8 fields in random order, looked up, reordered and changed in one place"))
prop("D07", "Errors keep their type and message between the layers",
 "An error that passes from the transport to the protocol to the application keeps its type code and its message, the end of the data is reported as such, and no error stays no error. Context added on the way (struct, field id and name) is in the message along with the original message, and gives an unknown error the type of invalid data while keeping every other type.",
 ["inputs"], "every error type and message, every chain of contexts",
 "the tests check two messages",
 [L+"ttransport_exception.go", L+"tprotocol_exception.go", L+"texception.go"], [("conversion between error types", L+"tprotocol_exception.go")], ["type code and message of errors"],
 ("generated errors through every conversion", "random types and messages, random chains of up to 4 contexts"))
GEN = "compiler/cpp/src/generate/t_go_generator.cc"
prop("G01", "The generator turns every Thrift program into Go code that compiles",
 "Whatever enums, typedefs, structs, exceptions, constants, services and includes a valid Thrift program has, and whichever Go keywords, predeclared names or names of the generated code's own variables and methods it uses for fields, arguments and functions, the generator ends without an error and writes Go packages, with the declared name and path, that the Go compiler accepts, each service's command included. This holds for fields of every type and id, for defaults and constants of every type, and for types and services of included programs. The output depends only on the program.",
 ["inputs"], "every valid Thrift program (names that differ as Go names, and do not meet names the generator makes up)",
 "the tests compare the output for one small program",
 [GEN], [("types and constants", GEN), ("services and commands", GEN)], ["the generated files"],
 ("generated programs through the real generator, with the Go type checker as oracle", "3200 random programs of up to 20 declarations with types nested to depth 3; the Thrift front end is a stand-in (gen/)"))
prop("G02", "Generated structs are written and read as declared",
 "A struct of the generated code writes exactly the fields that are set, with the declared names, ids and types, and reads back what any program wrote for the same declaration: fields in any order, fields it does not know skipped, fields that are left out as in a new struct, for every protocol. Whatever stops the writing or the reading, a failure of the transport, even once, or data that ends early, is returned as an error that keeps the type and the message of its cause. The struct's description, its access by field id, IsSet and CompareTo agree with the declaration and with what it holds.",
 ["inputs", "fault sequences"], "every declared struct, every value of it, every message for it",
 "the tests have one generated struct of enums and numbers, and never read it from another writer",
 [GEN, "lib/go/src/thrift/tstruct.go"], [("reader and writer of structs", GEN), ("containers of structs and typedefs", GEN)], ["bytes written by structs, fields after reading"],
 ("round trip and differential against independent encoders over generated programs", "96 random programs (384 thorough) with random structs, values nested to depth 3, foreign messages, faults at every byte"))
prop("G03", "Calls of generated services arrive as made and are answered as handled",
 "A call through a generated client reaches the handler of that function with the arguments of the call, and the client returns the result, the declared exception or the error that the handler gave, over any history of calls, for inherited functions as for own ones; oneway functions are never answered. Requests and answers have the name, the type and the sequence number of the call and the declared argument and result structs, so that other programs can be at either end. Unknown functions, requests and answers that end early, answers to other requests and lines that fail are reported, and unknown functions leave the connection in step.",
 ["histories", "fault sequences"], "every declared service, every history of calls, every fault",
 "the tests make no call through generated code",
 [GEN], [("clients", GEN), ("processors", GEN)], ["results of client calls, calls of the handler, bytes on the line"],
 ("model-based histories of calls over generated programs", "96 random programs (384 thorough), histories of up to 6 calls in four protocols, plain and framed, by the generated ends or by hand"))
prop("G04", "Generated enums, constants and defaults have the values of the program",
 "Every name of an enum has the declared or implied value, prints as its name and is read back from it, and numbers and texts that are not declared are told apart. Every constant, of base, enum, container and struct type, can be used from other packages and has the declared value. A new struct has the declared defaults and nothing else, whatever was done to the values of structs made before.",
 ["inputs"], "every declared enum, constant and default",
 "the tests have three enums and no constants",
 [GEN], [("enums", GEN), ("constants and defaults", GEN)], ["values of generated names"],
 ("differential against an evaluation of the program", "96 random programs (384 thorough) rich in enums and constants, nested to depth 3"))
NA = []
NOTES = "All checks are Go programs in go/src/checks built against /repo/lib/go/src/thrift in GOPATH mode; run.sh builds and runs one. Random choices come from VERIF_SEED only."
