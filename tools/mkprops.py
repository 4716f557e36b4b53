#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the text is reviewable).
import json
B="encoding/thriftbinary/thriftbinary.go"; C="encoding/thriftcompact/thriftcompact.go"; CT="encoding/thriftcompact/types.go"
WB="encoding/thriftwire/bufio.go"; WV="encoding/thriftwire/varint.go"; WS="encoding/thriftwire/skip.go"; WP="encoding/thriftwire/protocol.go"; WT="encoding/thriftwire/types.go"
A="thrift/arshal.go"; AD="thrift/arshal_default.go"; E="thrift/errors.go"; F="thrift/fields.go"
P="tools/thriftfile/parser.go"; S="tools/thriftfile/scanner.go"; T="tools/thriftfile/tokens.go"; N="tools/thriftfile/nodes.go"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return d
L=[]
L.append(p("C01","Binary protocol writers emit exactly the specified bytes",
"Every write operation of the Thrift Binary protocol (strict and older encoding) appends exactly the bytes the format prescribes for its argument and nothing else: big-endian two's-complement integers and IEEE doubles, one-byte booleans and type codes, 32-bit length-prefixed strings and bytes, raw 16-byte UUIDs, field/map/set/list headers, a single stop byte at the end of a struct, and versioned (strict) or unversioned (older) message headers. This holds for every argument value whose length fits the format's 32-bit size.",
["inputs"],"every value of every integer, double, boolean, string, byte slice, UUID and header argument, for both protocol variants and any prior output",
"tests round-trip about 16 sample structs through the library's own reader; a symmetric mistake in writer and reader, or a mistake on other values, passes",
[B],[("one writer method per wire construct, big-endian helpers over a buffered writer",B)],["bytes reaching the io.Writer given to NewWriter/Reset after Flush"]))
L.append(p("C02","Binary protocol readers decode exactly what the bytes denote",
"For any input stream, each read or skip operation of the Thrift Binary protocol succeeds exactly when the stream at the current position holds a complete well-formed encoding of the requested construct; it then returns the value those bytes denote and leaves the position exactly after them. Negative string lengths are rejected. The strict reader accepts only versioned message headers, the non-strict reader accepts both forms, and reading back what the matching writer wrote yields the written value.",
["inputs"],"every byte stream of any length, at any position, for both protocol variants",
"tests only read back what the writer under test produced from a few samples, never arbitrary, truncated or foreign bytes",
[B,WB],[("reader methods decode from a peeked window of the buffered reader","%s, %s"%(B,WB))],["values and errors returned by the Reader, bytes left in the stream"]))
L.append(p("C03","Compact protocol writers emit exactly the specified bytes",
"Every write operation of the Thrift Compact protocol appends exactly the bytes the format prescribes: zig-zag varints for i16/i32/i64, little-endian doubles, varint-prefixed strings, raw UUIDs, one-byte booleans outside fields, packed list/set headers (short form iff the size is below 15), map headers with a single zero byte for an empty map, and message headers whose sequence number is an unsigned 32-bit varint. Types that have no compact encoding are refused with an error and no header is written for them.",
["inputs"],"every argument value of every write operation and any prior output; sequence numbers over the whole int32 range",
"tests round-trip a few samples (sizes 0, 2 and 64, small positive message ids) through the library's own reader only",
[C,CT],[("append helpers that build headers, varint writers",C),("type-code table",CT)],["bytes reaching the io.Writer after Flush","exported Append*Header helpers"]))
L.append(p("C04","Compact protocol readers decode exactly what the bytes denote",
"For any input stream, each read or skip operation of the Thrift Compact protocol succeeds exactly when the stream at the current position holds a complete well-formed encoding of the requested construct; it then returns the value those bytes denote and leaves the position exactly after them. A wrong protocol id, a wrong version, an unknown type code, an over-long varint or a negative string length is rejected with an error. Reading back what the compact writer wrote yields the written value.",
["inputs"],"every byte stream of any length, at any position",
"tests only read back what the writer under test produced from a few samples",
[C,CT,WB,WV],[("reader methods, varint decoding, exported Read*Header helpers","%s, %s"%(C,WV))],["values and errors returned by the Reader, bytes left in the stream"]))
L.append(p("C05","Compact field ids and boolean fields keep their struct context",
"In the compact protocol a field header is the one-byte delta form exactly when the id exceeds the previous field id of the same struct by 1 to 15, and the long form with the full id otherwise; entering a struct starts from previous id 0 and leaving it restores the enclosing struct's previous id, at any nesting depth, in both reader and writer. A boolean field's value travels in its field header: the writer emits that header, with the true or false code, once the value is written, and the reader's next boolean read returns that value without consuming input, while booleans outside fields use one byte. An unbalanced struct end is reported as an error.",
["inputs","histories"],"every previous field id, new field id and field type (full int16 range), every nesting history of struct begins and ends, every boolean",
"tests use ids 0..3, 32 and 64 and nesting depth 3; deltas around 15, negative and extreme ids and interleavings of nested structs and booleans are never reached",
[C],[("stack of previous field ids, pending boolean field",C)],["bytes written, field headers and booleans read"],
[("previous field id and its stack","id of the last field of each open struct",C),("pending boolean","boolean field whose header is deferred (writer) or already read (reader)",C)]))
L.append(p("C06","Corrupt or truncated input yields an error, never a panic or a false value",
"No byte stream makes any read or skip operation of either protocol, nor the shared low-level decoding helpers, panic. If the stream ends before the requested construct is complete the operation returns a non-nil error, and when the underlying source failed, that source's error is what is returned (end-of-input may be reported as unexpected end-of-input). No operation ever reports success with a partially read value.",
["inputs","fault_sequences"],"every byte stream, truncation point and source error, for every read operation",
"tests truncate only two string reads; the other operations are never run on truncated or corrupt input",
[B,C,WB,WV],[("error propagation from the buffered reader; size checks",WB)],["errors and panics of Reader methods"]))
L.append(p("C07","Readers never wait for bytes beyond the construct being read",
"A read or skip operation of either protocol that succeeds never demands bytes from the underlying source past the end of the construct it returns, so a complete message is always decodable as soon as its last byte has arrived, even if the peer then sends nothing and keeps the connection open.",
["inputs","schedules"],"every stream content and every way the source delivers it in pieces",
"tests read from in-memory buffers that report end-of-file at once; a source that stays open and silent is never simulated",
[B,C,WB,WV],[("peek sizes requested from the buffered reader","%s, %s"%(WB,WV))],["blocking behaviour of Reader methods on a live connection"]))
L.append(p("C08","Write failures are always reported and Flush reaches the destination",
"If any write to the destination fails, the write or flush operation during which it happens returns a non-nil error, and operations report an error only for a real failure or an unrepresentable argument. A successful Flush means that everything written so far has been handed to the current destination and that the destination's own Flush, if it has one, was called and succeeded; this holds for the destination given at construction and equally for one given later to Reset.",
["fault_sequences","histories"],"every write operation, every failing write point, every sequence of Reset/Write/Flush",
"tests write only to an in-memory buffer that cannot fail and has no Flush method",
[B,C,WP],[("sticky error of the buffered writer, error returns of each step, Flush forwarding","%s, %s, %s"%(B,C,WP))],["errors from Writer methods, Flush calls seen by the destination"],
[("destination","the io.Writer currently written to","%s, %s"%(B,C))]))
L.append(p("C09","Reset makes a reader or writer indistinguishable from a new one",
"After Reset, a reader or writer of either protocol behaves exactly as one newly created for the given source or destination, whatever happened before: no buffered bytes, sticky error, open struct, previous field id or pending boolean of the earlier use remains observable, and the protocol variant (strict or not) is kept. Newly created readers and writers start in that same initial state and are attached to the source or destination given.",
["histories"],"every history of operations, errors and aborted structs before Reset",
"tests reset only after complete, successful messages, where no state is left to leak",
[B,C],[("Reset and constructors","%s, %s"%(B,C))],["results of operations after Reset"]))
L.append(p("C10","Low-level string and byte reads return exactly the requested bytes",
"Reading n bytes as a string or appended to a caller's buffer returns exactly the next n bytes of the stream, in order, preserving the caller's existing buffer contents as a prefix, for every n including sizes far beyond the internal buffer. If fewer bytes are available it returns those bytes and a non-nil error. Memory allocated for the result grows with the bytes actually delivered by the source, not with the length announced by the input.",
["inputs"],"every n, every prior buffer content, every stream length and internal buffer size",
"tests try n equal to the internal buffer size plus or minus one on a stream of identical bytes",
[WB],[("chunked read loop bounded by the internal buffer size",WB)],["returned strings and buffers"]))
L.append(p("C11","Varint decoding agrees with the standard definition on every input",
"The optimised unsigned and signed varint reads return, for every stream, the same value, consume the same bytes and succeed or fail in the same cases as the standard library's byte-by-byte varint decoder, including 10-byte encodings, overflow, non-minimal encodings and truncation.",
["inputs"],"every byte stream, with any amount already buffered",
"tests decode 7 powers of two and one overflow pattern",
[WV],[("fast path over a peeked window with a fallback to the byte-wise decoder",WV)],["values, errors, and stream position"]))
L.append(p("C12","Skip consumes exactly one value of the given type",
"Skipping a value of a given wire type performs on the reader exactly the reads that make up one value of that type, recursively and in order, for every element, entry and field, including the begin/end calls of containers, structs and fields, and nothing more. An unknown type code at any depth is an error, and any error from the reader stops the skip and is returned. Nesting depth is bounded, so no input can exhaust the stack.",
["inputs"],"every wire type, every (nested) value and every reader behaviour including errors",
"tests skip one shallow sample per type; nested containers, zero sizes, error points and hostile nesting are not reached",
[WS],[("recursive descent over the wire type",WS)],["calls made on the Reader; stream position afterwards"]))
L.append(p("C13","Wire and compact type codes correspond exactly",
"Each Thrift wire type maps to its compact type code and back to itself, both boolean codes map to the boolean type, the assigned numbers are those of the Thrift specification, and every other code is rejected with an error in both directions. Rendering any type code, message type or token as text never panics and yields the documented name for assigned codes.",
["inputs"],"all 256 values of each code, in both directions",
"tests enumerate the 14 valid codes only and never an invalid one",
[CT,WT,"encoding/thriftwire/type_string.go","encoding/thriftwire/messagetype_string.go","encoding/thriftcompact/compacttype_string.go","tools/thriftfile/token_string.go"],
[("switch tables",CT),("generated name tables","encoding/thriftwire/type_string.go")],["type codes on the wire, error results, String methods"]))
L.append(p("C14","Marshal emits a faithful, well-formed event stream for every value",
"Marshalling a supported Go value performs on the writer exactly the sequence of operations its Thrift value prescribes: scalars as their wire type with the value unchanged (unsigned and signed integers by bit pattern), byte slices as strings, containers with a header naming the element types and the exact element count followed by every element once and in order for lists and sets, nil pointers as the zero value, and balanced begin/end calls. A struct emits its fields in ascending id order, each with its declared id, name and wire type, omitting exactly the fields that are not required and are zero, where a type's own zero test takes precedence.",
["inputs","programs"],"every supported Go type and every value of it",
"tests marshal 20 sample values; element counts, other types, zero tests and field orderings are not covered in general",
[A,AD,F],[("per-kind marshal functions built from the reflected type",AD)],["sequence of Writer calls"]))
L.append(p("C15","Unmarshal stores exactly the decoded value and consumes it whole",
"Unmarshalling reads from the reader exactly the operations making up one value and stores the decoded data: scalars converted by bit pattern, lists and sets end with exactly the announced number of elements each decoded into a zeroed element, map entries are all added, pointers are allocated when nil, struct fields are matched by id and unknown fields are skipped whole. A wire type that does not match the Go type is rejected with an error before anything is read or stored for it.",
["inputs","programs"],"every supported Go type, every prior content of the destination and every event sequence from the reader",
"tests unmarshal only what was just marshalled from the same type into a fresh value",
[A,AD,F],[("per-kind unmarshal functions built from the reflected type",AD)],["sequence of Reader calls, resulting Go value"]))
L.append(p("C16","Every marshalling failure is reported, attributed and unwrappable",
"If any reader or writer operation fails while (un)marshalling, the call stops there and returns a non-nil error from which the original error can be unwrapped, and for values of known type the error tells whether it was marshalling or unmarshalling and the Thrift and Go types concerned. Go values that cannot be represented (nil or non-pointer targets, unsupported kinds, malformed struct declarations) are refused with such an error and never cause a panic; without any failure no error is returned.",
["inputs","programs","fault_sequences"],"every type, every operation at which the reader or writer may fail, every invalid argument",
"tests inject a failure at each step of 20 samples but do not cover other kinds, unknown fields, invalid kinds or nil targets",
[A,AD,E,F],[("error wrapping in the per-kind functions","%s, %s"%(AD,E))],["errors returned by Marshal and Unmarshal"]))
L.append(p("C17","Struct tags determine field id, requiredness and exclusion",
"A field tagged \"-\" is ignored, an untagged unexported field is ignored, and every other field must be exported and carry a decimal id within 16 bits, optionally followed by comma-separated options, of which exactly \"required\" makes the field always written. Malformed ids, stray characters, trailing commas, duplicate options and look-alikes of \"required\" are rejected with an error; parsing any tag terminates without panicking. The fields of a type are ordered by id and found by id.",
["inputs","programs"],"every tag string and every field declaration",
"no test exercises tag parsing beyond \"N\" and \"N,required\"",
[F],[("tag parser and field table construction",F)],["Marshal/Unmarshal behaviour for a struct type"]))
L.append(p("C18","IDL scanning follows the lexical grammar on every input",
"For any bytes, each token returned is the longest lexeme of the Thrift IDL lexical grammar at the next non-blank position, with the right kind (keyword, identifier, integer, float, string, comment, operator, end of file), exact start position and exact text. Blank characters and nothing else are passed over silently; any other character that starts no token, and every unterminated string or comment, bad escape, NUL or invalid UTF-8, is reported as an error. Scanning always advances, so it terminates after at most as many tokens as there are bytes.",
["inputs"],"every byte sequence",
"tests scan the well-formed sample files and only require that no error is reported; token kinds, positions and texts are not checked",
[S,T],[("hand-written scanner over decoded runes",S),("keyword table",T)],["tokens, literals, positions and errors seen by the parser"],
[("scan position","current rune, its offset and the next read offset",S)]))
L.append(p("C19","IDL parsing terminates without panicking on every input",
"Parsing any byte sequence terminates, never panics, and returns a non-nil file; the work is bounded because every step consumes input or ends at end of file, and after a syntax error in a definition parsing resumes at the next definition keyword so later definitions are still parsed. Nesting depth is bounded, so no input can exhaust the stack.",
["inputs"],"every byte sequence",
"tests parse only the sample files, nearly all of them valid",
[P,S],[("token consumption in every loop; recovery at definition keywords",P)],["Parse returning, the returned file"]))
L.append(p("C20","The IDL syntax tree records exactly what the source says",
"When no error is reported, the syntax tree follows the Thrift IDL grammar: every header, definition, field, method, enum value, type, constant value and annotation of the source appears exactly once, in source order, in the node of the right kind, with its names, ids, literals, flags (union, exception, required, optional, reference, oneway, void), defaults, throws clauses and annotations attached to the right node, and source text that does not match the grammar is never accepted silently.",
["inputs","programs"],"every token sequence",
"tests check only that the sample files parse without error; the resulting tree is never inspected",
[P,N],[("one parsing function per grammar production",P)],["the File returned by Parse"]))
L.append(p("C21","Every syntax error is reported once, positioned and ordered",
"Parse returns a nil error exactly when no lexical or syntax error was found; otherwise its error reports every one found, each with its file position, ordered by file, line, column and message. No error detected by the scanner or the parser is dropped.",
["inputs"],"every byte sequence and every set of detected errors",
"tests contain hardly any invalid file and compare at most one error per line",
[P,S],[("error list, sorting and conversion on return",P)],["error returned by Parse"]))
L.append(p("C22","Joined protocols read with the one and write with the other",
"A protocol joined from a reading and a writing protocol creates its readers with the former and its writers with the latter, passing the given stream through unchanged; flushing a plain writer is a no-op without error, and flushing one that can be flushed returns that flush's own result.",
["inputs"],"every pair of protocols and every stream",
"the only use in tests is an example that is never executed against streams",
[WP],[("forwarding methods",WP)],["readers and writers produced by the joined protocol"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
print(len(L))
