import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Default encoding is identical to encoding/json",
 "For every Go value whose type uses no Jettison-only feature, encoding it with default options produces byte for byte what encoding/json's Marshal produces, and fails exactly when encoding/json fails. The only allowed differences are that backspace and form feed are spelled \\u0008 and \\u000c, that error texts are Jettison's own, that a nil interface used as a map key does not panic, and that a time value whose zone offset is 24 hours or more is formatted instead of rejected. This covers every kind of supported type in every position: top level, behind pointers and interfaces, in struct fields, arrays, slices, map keys and map values, including interface types with methods, recursive types and types that implement json.Marshaler or encoding.TextMarshaler.",
 ["inputs","programs"],"every supported Go type and every value of it, default options",
 "The suite compares a few dozen hand-written values with encoding/json; the claim is over all types, nesting, layouts and contents, and the type-directed unsafe code has a separate path for nearly every combination.",
 ["encode.go","instruction.go","struct.go","types.go","unsafe.go","json.go","map.go","integer.go","number.go","time.go"],
 [("type-directed instruction selection","instruction.go: newInstruction and the new*Instr family"),("encoders reading memory through unsafe pointers","encode.go"),("direct-interface handling","types.go: isInlined; unsafe.go: packEface")],
 obs=["return values of Marshal"])

p("C02","Every successful encoding is one valid, compact JSON text",
 "Whenever an encoding call returns a nil error, the bytes it produced for the value are exactly one well-formed JSON text with no insignificant white space, for every value and every combination of options except those that explicitly give up validity (NoStringEscaping, NoNumberValidation, NoCompact). No content of strings, map keys, text-marshaler results, raw messages, numbers, time layouts or zone names, and no pattern of omitted fields, can break out of its JSON token or unbalance the structure. Output obtained without NoUTF8Coercion from values without raw JSON fragments is also valid UTF-8.",
 ["inputs","configurations","programs"],"all values, all types, all option combinations outside the three escape hatches",
 "Injection and structural defects need particular contents in particular positions (a quote in a text key, a first field that disappears); tests sample benign contents.",
 ["encode.go","instruction.go","struct.go","json.go"],
 [("separator and brace bookkeeping","encode.go: encodeStruct, encodeMap, encodeArray"),("string escaping","encode.go: appendEscapedBytes"),("raw fragment checking","encode.go: encodeRawMessage, encodeJSONMarshaler, appendCompactJSON"),("number check","number.go: isValidNumber")],
 obs=["bytes returned by Marshal, MarshalOpts, Append, AppendOpts"])

p("C03","Struct fields follow Go's embedding, tag and visibility rules at any depth",
 "For every struct type, the encoded object contains exactly the fields that encoding/json's rules select: exported fields, promoted fields of embedded structs and embedded struct pointers at any depth, with tagged names dominating untagged ones, shallower dominating deeper, and ambiguous names dropped. Each appears once, under the name from its tag (or the Go name when the tag name is empty or invalid), in the declaration order of its index sequence, and carries the value of that very field, with the string tag option quoting scalars. Fields reached through a nil embedded pointer are omitted.",
 ["programs","inputs"],"all struct types (fields, tags, embedding graphs, memory layouts) and all their values",
 "Field selection and offset computation are functions of the type, so each struct type is a separate case; the suite has about twenty shallow ones.",
 ["struct.go","tags.go","instruction.go","encode.go"],
 [("breadth-first field scan and dominance","struct.go: structFields, scanFields, filterByVisibility, dominantField"),("offset and indirection sequences","struct.go: field.embedSeq; encode.go: encodeStruct"),("tag parsing","tags.go: parseTag"),("string option","instruction.go: newBasicTypeInstr; encode.go: encodeQuotedString")],
 state=[("fieldsCache","selected fields per struct type","struct.go")],obs=["object members in the output"])

p("C04","The four entry points agree and Append only extends the given buffer",
 "For the same value and the same options, Marshal, MarshalOpts, Append and AppendOpts produce the same encoding and agree on whether there is an error; Marshal and Append are MarshalOpts and AppendOpts without options. Append and AppendOpts leave every byte already in the destination slice unchanged and return it followed by exactly the encoding, whatever the length, spare capacity and stale contents of the destination. The encoding itself never depends on what precedes it in the buffer.",
 ["inputs","configurations"],"all values, options, destination lengths, capacities and contents",
 "The tests append to a nil slice only; growth paths, look-behind at already written bytes and in-place edits depend on the destination's length and capacity.",
 ["json.go","encode.go","buffer.go"],
 [("entry points","json.go: Marshal, Append, MarshalOpts, AppendOpts"),("manual buffer growth","encode.go: encodeByteSlice"),("look-behind on dst","encode.go: encodeStruct (omitnil), appendFloat")],
 obs=["returned slices and errors","the destination's original backing array"])

p("C05","Returned bytes belong to the caller for good",
 "The slice returned by Marshal or MarshalOpts never changes because of any later call to the library, on any goroutine, and overwriting it, or appending to it, never influences any other result. It also never shares memory with the encoded value: changing the value after the call returned does not change the bytes. This holds across calls that return errors or panic inside user code, and across nested calls made from inside custom marshalers.",
 ["histories","schedules","inputs"],"all sequences of encoding calls, including failing, panicking, re-entrant and concurrent ones",
 "Buffer recycling only shows when a particular later call reuses the same pooled memory; tests drop each result before making the next call.",
 ["json.go","buffer.go","map.go","encode.go"],
 [("copy out of the pooled buffer","json.go: marshalJSON"),("pools","buffer.go: bufferPool; map.go: hiterPool, mapElemsPool")],
 state=[("bufferPool","recycled output buffers","buffer.go"),("mapElemsPool","recycled sort arrays holding slices of a pooled buffer","map.go")],
 obs=["snapshots of every returned slice, re-read after later calls"],hook="release points of pooled memory, so that a monitor can poison what was released")

p("C06","Encoding reads only the value's own memory and writes none of it",
 "While encoding, the library never reads memory outside the objects reachable from the value and never writes to any of them: a value that ends at the last byte before inaccessible memory, or lives in read-only memory, encodes normally. Strings, slices, arrays, structs, map entries and the arguments given to options are bit-for-bit the same after the call. The unsafe pointer arithmetic stays valid under the garbage collector, stack growth, the address sanitizer and pointer checking.",
 ["inputs","programs","schedules"],"all values and memory layouts, any garbage-collection and stack-growth timing",
 "An over-read of the neighbouring field, or a pointer hidden from the collector, normally goes unnoticed in a test that only compares output on a fresh heap.",
 ["encode.go","unsafe.go","instruction.go","struct.go","types.go","map.go"],
 [("unsafe loads and pointer arithmetic","encode.go, integer.go, types.go: emptyFuncOf"),("interface word packing","unsafe.go: packEface, unpackEface, noescape"),("runtime map iterator mirror","map.go: hiter")],
 obs=["page faults on guard pages","AddressSanitizer, race detector and checkptr reports","snapshots of inputs before and after"])

p("C07","The result depends only on the value and the options, never on history",
 "Encoding a given value with given options yields the same bytes and the same error every time, no matter what was encoded before in the process: which types, by value or by pointer, inside which other types, with which options, and whether earlier calls failed or panicked. In particular a type gives the same result on its first use as on any later use, and using a type in an addressable position first does not change how it encodes in a non-addressable position, or the reverse.",
 ["histories","configurations"],"all orders of encoding calls over a set of types, values and options",
 "Each test encodes its own types once in one fixed order; the caches of instructions, fields and zero-tests and the pools are process-wide state that only other orders exercise.",
 ["instruction.go","struct.go","types.go","buffer.go","map.go","json.go"],
 [("instruction caches","instruction.go: cachedInstr, storeInstr, newStructInstr"),("field cache","struct.go: cachedFields"),("emptiness-test cache","types.go: cachedEmptyFuncOf"),("pools","buffer.go, map.go")],
 state=[("instrCachePtr","copy-on-write map from type to instruction","instruction.go"),("structInstrCache","instruction per struct type and addressability","instruction.go"),("fieldsCache","fields per type","struct.go"),("emptyFnCache","emptiness test per type","types.go")],
 obs=["results of the same call at different points of different histories"],hook="a way to reset the caches so that first use can be replayed")

p("C08","Concurrent encoding is race-free, deadlock-free and equals sequential results",
 "Any number of goroutines may call any entry point at the same time, on shared or distinct values and reusing the same Option values; every call returns, and returns exactly what it would have returned alone. This includes the moment when several goroutines use a type for the first time, and recursive or mutually recursive types whose encoders are still being built by another goroutine. No data race occurs on the library's shared state.",
 ["schedules","histories"],"all interleavings of concurrent encoding calls, including concurrent first use of types",
 "No test in the suite encodes from more than one goroutine; the race detector only sees races that a concurrent workload executes.",
 ["instruction.go","struct.go","types.go","buffer.go","map.go"],
 [("atomic copy-on-write cache","instruction.go: loadInstr, storeInstr"),("placeholder instruction that waits for the real one","instruction.go: newStructInstr"),("sync.Map caches and sync.Pool pools","struct.go, types.go, buffer.go, map.go")],
 state=[("instrCachePtr","published instruction cache","instruction.go"),("structInstrCache","placeholders and finished instructions","instruction.go")],
 obs=["results per goroutine against sequential results","race detector reports","blocked goroutines"],hook="scheduling points between cache lookup, construction and publication")

p("C09","Maps encode every entry once, under the right key, sorted by key",
 "A Go map encodes as an object with exactly one member for each entry, whose name is the key itself for string kinds, the text it marshals to for text marshalers (the empty string for a nil pointer), and the decimal number for integer kinds, in that order of precedence; other key types are refused. Members are sorted by the bytes of the unescaped key, so the output is the same for every insertion order and map size; with UnsortedMap it is the same set of members in any order. This holds for nested maps at any depth and for keys containing characters that need escaping.",
 ["inputs","configurations"],"all map types, sizes, contents, insertion histories and nesting",
 "Key order, growth and iteration order vary with map size and insertion and deletion history; tests use maps of at most a few entries with plain keys.",
 ["encode.go","instruction.go","map.go","map_1.18.go"],
 [("key instruction choice","instruction.go: newMapInstr"),("sorting via pooled elements","encode.go: encodeSortedMap; map.go: mapElems"),("runtime map iteration by linkname","map.go: hiter, mapiterinit, mapiternext")],
 state=[("hiterPool","recycled runtime iterators","map.go"),("mapElemsPool","recycled sort arrays","map.go")],obs=["decoded members of the output, in order"])

p("C10","sync.Map encodes like the equivalent map, even while it is being modified",
 "A sync.Map encodes as a JSON object with one member per entry under the same key rules and the same ordering as a Go map, with nil values as null, and refuses keys that are nil or neither strings, integers nor text markers with an error. While other goroutines store and delete entries, the call still returns valid JSON without duplicate members for one entry, containing every entry that was present during the whole call, and only key and value pairs that the map held at some moment during the call.",
 ["schedules","inputs","histories"],"all contents and all concurrent histories of Store and Delete during the call",
 "The two sync.Map tests use one static map; concurrent modification is never exercised.",
 ["encode.go"],
 [("range-based encoding","encode.go: encodeSyncMap, encodeSortedSyncMap, encodeUnsortedSyncMap"),("key conversion","encode.go: appendSyncMapKey")],
 obs=["output members against the recorded history of stores and deletes"])
P[-1]["statement"]=P[-1]["statement"].replace("text markers","text marshalers")

p("C11","Custom marshalers: fixed precedence, one call each, right receiver",
 "A value whose type offers custom marshaling is encoded by exactly one of its methods, chosen in the order AppendJSONContext, AppendJSON, MarshalJSON, MarshalText, with a pointer-receiver method used exactly when the value is addressable (reached through a pointer or slice element) or is itself a pointer, and, as in encoding/json, a field or element declared as an interface type with one of these methods using that method. The method runs once per occurrence of the value, on a receiver equal to that value (identical, for pointers), and AppendJSONContext receives the context given with WithContext. Nil pointers and nil interfaces encode as null without any call, and the method's result, not the value's fields, is what appears in the output at that place.",
 ["inputs","programs","configurations"],"all types implementing any subset of the four interfaces, with value or pointer receivers, of any kind and in any position",
 "Dispatch depends on kind, receiver, addressability, position and memory representation together; tests cover string and empty-struct kinds in struct fields.",
 ["instruction.go","encode.go","unsafe.go","types.go"],
 [("method selection","instruction.go: newMarshalerTypeInstr"),("receiver reconstruction","encode.go: encodeMarshaler; unsafe.go: packEface"),("calls","encode.go: encodeAppendMarshalerCtx, encodeAppendMarshaler, encodeJSONMarshaler, encodeTextMarshaler")],
 obs=["a log of every method call: method, receiver, context, order"])

p("C12","Embedded raw JSON is validated and compacted without changing its meaning",
 "JSON produced by MarshalJSON or held in a json.RawMessage appears in the output with exactly its insignificant white space removed and, unless NoHTMLEscaping is set, with <, > and & written as \\u escapes; every token, including strings with escapes or white space and numbers as spelled, is otherwise preserved, and line and paragraph separators may be escaped. If the fragment is not one valid JSON text the call fails with an error instead of emitting it. With NoCompact the fragment is copied verbatim.",
 ["inputs","configurations"],"all byte strings as fragments, all positions, with NoHTMLEscaping and NoCompact on or off",
 "Compaction is a hand-written scanner with in-string and escape state; tests feed it one short object.",
 ["encode.go"],
 [("hand-written compaction","encode.go: appendCompactJSON"),("raw messages","encode.go: encodeRawMessage"),("validation","encode.go: encodeJSONMarshaler")],
 obs=["output at the fragment's place, against the fragment's token sequence"])

p("C13","Failures surface as the documented typed errors and produce no output",
 "Encoding fails exactly for values that cannot be represented: an UnsupportedTypeError naming the type for channels, functions, complex numbers and bad map keys, an UnsupportedValueError for NaN, infinities and cyclic values, an error for invalid numbers, years outside 0 to 9999 and sync.Map keys, and a MarshalerError wrapping (per errors.Is and errors.As) whatever error a custom marshaler returned. Invalid options are rejected with an InvalidOptionError before any non-nil value is looked at. On any error the Marshal functions return no bytes, the Append functions leave the destination's existing bytes intact, and the error surfaces however deep the failing element sits.",
 ["inputs","fault_sequences","configurations"],"all failing elements at every position of every surrounding value, all invalid options",
 "Tests check one failing value at the top level per error kind; propagation through each container and combinations with pooled state are not exercised.",
 ["json.go","encode.go","instruction.go","options.go"],
 [("error types","json.go"),("option validation","options.go: validate"),("propagation","encode.go: every composite encoder")],
 obs=["error value and its chain","returned slice on error"])

p("C14","time.Time values are formatted exactly, in every layout and zone",
 "A time.Time encodes as the JSON string of what Time.Format gives for the configured layout (RFC 3339 with nanoseconds by default), in the value's own location, for every instant with a year from 0 to 9999, every sub-second fraction and every zone offset; with UnixTime it encodes as the integer Unix seconds, whatever the layout. The same result appears wherever the time sits: top level, field, element, behind pointers and interfaces, map value or, as a string, map key; only a position declared as a marshaler interface type is encoded by the method of that interface instead. Years outside the range are an error.",
 ["inputs","configurations"],"all instants, locations and layouts",
 "The specialised date arithmetic is tested on random instants after 1970 only, with offsets under twelve minutes.",
 ["time.go","encode.go","instruction.go"],
 [("hand-written RFC 3339 formatting","time.go: appendRFC3339Time, rdnToYmd"),("layout dispatch","encode.go: encodeTime")],
 obs=["the encoded time"])

p("C15","time.Duration values are formatted exactly in every format",
 "A time.Duration encodes, for every one of its 2^64 values, as its integer number of nanoseconds (default), microseconds or milliseconds truncated toward zero, as the floating-point number Minutes or Seconds returns, or as the string that Duration.String returns, according to DurationFormat. The same result appears wherever the duration sits, including behind pointers and interfaces, in containers and, as a string, as a map key or under the string tag option.",
 ["inputs","configurations"],"all durations, formats and positions",
 "Eleven durations are tested for one format; the boundaries between units and the extremes of the range are many.",
 ["time.go","encode.go"],
 [("duration text","time.go: appendDuration, fmtFrac, fmtInt"),("format dispatch","encode.go: encodeDuration")],
 obs=["the encoded duration"])

p("C16","Strings are escaped exactly and decode back to what went in",
 "Every string, wherever it sits (value, map key, text-marshaler result, byte array or raw byte slice as string), encodes to a JSON string that decodes to the same text with each invalid UTF-8 byte replaced by U+FFFD; only the characters that must be escaped are, and <, >, &, U+2028 and U+2029 always are by default. NoHTMLEscaping changes only <, > and &; NoUTF8Coercion changes only invalid bytes, which are then copied as they are; NoStringEscaping copies the bytes untouched and overrides the other two. The string tag option yields the JSON encoding of the string's own JSON encoding.",
 ["inputs","configurations"],"all byte strings, positions and combinations of the three escaping options",
 "Escaping is a run-accumulating scanner whose errors depend on adjacency and position of special bytes; tests use a handful of strings.",
 ["encode.go"],
 [("escaping scanner","encode.go: appendEscapedBytes"),("string tag option","encode.go: encodeQuotedString")],
 obs=["output bytes and their decoding"])

p("C17","Numbers are encoded exactly and round-trip",
 "Every integer of every width encodes as its exact decimal value; every finite float32 and float64 encodes as the shortest JSON number that parses back to the same value of that width, in the format encoding/json uses, in exponent form exactly below 1e-6 and from 1e21 up; NaN and infinities are refused. A json.Number is copied unchanged exactly when it matches the JSON number grammar (the empty one as 0) and is refused otherwise, unless NoNumberValidation is given. The string tag option puts the same digits between quotes.",
 ["inputs","configurations"],"all values of all numeric types, all json.Number strings",
 "The domains are 2^64 values and all strings; tests sample a small grid.",
 ["integer.go","encode.go","number.go","instruction.go"],
 [("integers","integer.go"),("floats","encode.go: appendFloat"),("number grammar","number.go: isValidNumber; encode.go: encodeNumber")],
 obs=["output digits, parsed back"])

p("C18","Allow and deny lists filter exactly the named struct fields, everywhere",
 "With AllowList only struct fields whose JSON name is listed are encoded, with DenyList the listed ones are left out, and with both a field must be allowed and not denied; an empty allow list removes every field. The filter applies by output name to the fields of every struct at every depth (in maps, slices, interfaces, embedded structs), never to map keys or other values, and everything that is kept is encoded as it would be without the lists. Changing the caller's list after the option was made has no effect.",
 ["inputs","configurations","programs"],"all struct types, values and pairs of lists",
 "One example each in the suite, on one flat struct.",
 ["options.go","encode.go"],
 [("filter","options.go: isDeniedField; encode.go: encodeStruct"),("list capture","options.go: fieldListToSet")],
 obs=["object members in the output"])

p("C19","omitempty and omitnil drop exactly the fields they describe",
 "A struct field is left out because of omitempty exactly when it is false, zero, a nil pointer or interface, or an array, slice, map or string of length zero; because of omitnil exactly when it is a nil pointer, interface, slice or map, or its type implements json.Marshaler and it encodes to the literal null. All other fields stay, unchanged and correctly separated, whichever subset of the fields is dropped, first, last or all.",
 ["inputs","programs"],"all struct types with these options, all combinations of dropped and kept fields",
 "The number of dropped-field patterns is exponential and the emptiness test is chosen per type; the tests show one pattern per type.",
 ["struct.go","instruction.go","types.go","encode.go"],
 [("emptiness tests","types.go: emptyFuncOf"),("omission and separators","encode.go: encodeStruct"),("omitnil set-up","instruction.go: newStructFieldsInstr")],
 state=[("emptyFnCache","emptiness test per type","types.go")],obs=["object members in the output"])

p("C20","Byte sequences and nil collections follow their options exactly",
 "A byte slice encodes as the standard base64 of its bytes, or with RawByteSlice as the JSON string of its bytes, for every length and content; a byte array encodes as an array of numbers, or with ByteArrayAsString as the JSON string of its bytes; nil byte slices are null. Other nil slices and nil maps are null by default and [] and {} under NilSliceEmpty and NilMapEmpty; empty non-nil ones are always [] and {}. This holds for named byte types and in every position.",
 ["inputs","configurations","programs"],"all byte contents and lengths, all collection types and positions, all settings of the four options",
 "The base64 growth path and the option branches depend on length and capacity; tests use five lengths and one example per option.",
 ["encode.go","instruction.go"],
 [("byte slices","encode.go: encodeByteSlice; instruction.go: newSliceInstr"),("byte arrays","encode.go: encodeByteArrayAsString; instruction.go: newArrayInstr"),("nil collections","encode.go: encodeSlice, encodeMap")],
 obs=["output and its decoding"])

p("C21","Options act independently, only on what they name, at every depth",
 "The encoding under any set of options is the default encoding with just the described change applied to the constructs each option names: parts of the value that contain no such construct are unchanged, and options act the same in nested values, map keys and values, and interface contents. The order of different options does not matter, the last of repeated settings wins, a nil option is ignored, and an Option may be reused in any number of calls without state carrying over.",
 ["configurations","inputs","histories"],"all sets and orders of options over all values",
 "There are thousands of option subsets and each is a separate path through every encoder; tests set one option at a time.",
 ["options.go","encode.go","json.go"],
 [("option application","options.go: apply"),("flag tests","encode.go"),("passing options down","instruction.go: instruction signature")],
 obs=["output per option set, against an independent model"])

p("C22","Encoding any finite value terminates normally; cyclic values are errors",
 "For every type, including types that are recursive through structs, pointers, slices, maps or arrays, alone or mutually, and every finite value of it at any nesting depth up to a hundred thousand levels, the call returns without a crash, hang or fatal stack overflow. A value that contains itself through pointers, maps, slices or interfaces makes the call return an error, like encoding/json does, and a shared but acyclic value encodes normally each time it occurs. A panic raised in user code propagates to the caller and leaves the library fully usable.",
 ["inputs","programs","fault_sequences"],"all recursive types, all depths and sharing patterns, panics at any marshaler call",
 "A stack overflow kills the process, so tests cannot contain it; one recursive struct type with two levels is tested.",
 ["instruction.go","encode.go","json.go"],
 [("placeholder for recursive types","instruction.go: newStructInstr"),("recursion over values","encode.go: encodePointer, encodeInterface, encodeMap, encodeSlice")],
 obs=["exit of a child process per case","returned error"])

p("C23","benchparse turns every benchmark statistic into exactly one table cell",
 "For every well-formed benchstat CSV input, the benchparse tool writes one JSON table per benchmark whose header names the enabled units and whose rows, one per run, hold the run name followed by exactly that run's values in the order of the input's sections, with the sections disabled by the omit flags left out. No statistic is lost, duplicated or attributed to another run or benchmark, and malformed input makes the tool fail without a zero exit status.",
 ["inputs","configurations"],"all well-formed inputs and flag combinations",
 "The tool has no tests.",
 ["tools/benchparse/benchparse.go"],
 [("parsing","tools/benchparse/benchparse.go: parse"),("table building","tools/benchparse/benchparse.go: transform")],
 obs=["the output file"])
p("C24","Calls leave nothing behind: memory and goroutines do not grow with their number",
 "For a fixed set of Go types, the memory that stays allocated and the goroutines that stay running do not grow with the number of calls made, whatever their values, map keys, options, layouts, contexts, errors and panics are and whichever goroutines make them. What the library keeps grows with the types it has met and the concurrent calls only; no call keeps its value, its output, its options or its context alive.",
 ["inputs","histories","configurations","fault_sequences"],"all mixes of calls over a fixed set of types",
 "A test makes a few calls and never measures what stays allocated.",
 ["json.go","buffer.go","encode.go","options.go","time.go","map.go"],
 [("instruction cache","instruction.go: cachedInstr"),("buffer pool","buffer.go: cachedBuffer"),("pools of map elements","encode.go, map.go")],
 obs=["live heap objects and bytes after collections, number of goroutines"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    n=len(re.findall(r"[.!?](?:\s|$)",x["statement"]))
    if n>3: print(x["id"],n)
