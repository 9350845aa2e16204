#!/usr/bin/env python3
# Source of properties.jsonl: run it after editing.
import json
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
API=["Marshal","Append","MarshalOpts","AppendOpts"]
prop("C01","Successful output is one well-formed JSON value",
"For every value and every set of options other than NoStringEscaping, NoNumberValidation and NoCompact, a call that reports no error has produced exactly one syntactically valid JSON value: brackets and quotes are balanced, and separators are neither missing, doubled nor left dangling, whichever fields are omitted or elements are empty. Object keys are always JSON strings, whatever the Go type of the map key. The only assumption is that the AppendJSON and AppendJSONContext methods of the caller append one valid JSON value.",
["inputs","configurations"],"all Go values of all types, all option sets except the three that waive validation",
"Tests compare a few dozen documents with encoding/json; the combination of omitted fields, empty containers, key types, quoting and options is unbounded.",
["encode.go","instruction.go","json.go"],[("object/array separators","encode.go:encodeStruct,encodeArray,encodeMap"),("key instructions","instruction.go:newMapKeyInstr"),("validation of raw JSON","encode.go:encodeJSONMarshaler,encodeRawMessage")],API)
prop("C02","String content is escaped safely and without loss",
"Unless NoStringEscaping is set, every text written between the quotes of a JSON string (string values and keys, text marshaler results, raw byte slices and byte arrays, formatted times) contains no raw control character, quote, lone backslash, U+2028 or U+2029, no raw '<', '>' or '&' unless NoHTMLEscaping is set, and no invalid UTF-8 unless NoUTF8Coercion is set. Decoding that text gives back exactly the original bytes, in order and complete, with each invalid byte replaced by U+FFFD when coercion is on. Characters that need no escaping are written as themselves.",
["inputs","configurations"],"every byte sequence of any length, every combination of the escaping options",
"Tests run sample strings; losing a byte at a chunk boundary or missing one character class needs a specific position or code point.",
["encode.go"],[("escaping loop","encode.go:appendEscapedBytes")],["string values","map keys","MarshalText results"])
prop("C03","Only valid number literals are accepted from json.Number",
"Unless NoNumberValidation is set, a json.Number is accepted if and only if its text is a number of the JSON grammar (the empty text standing for 0), and is then copied unchanged; any other text makes the call fail. With the option, the text is copied without being checked.",
["inputs"],"every string",
"Tests list about a hundred literals; the grammar is an infinite language.",
["number.go","encode.go"],[("grammar check","number.go:isValidNumber"),("use","encode.go:encodeNumber")],API)
prop("C04","Compaction is transparent",
"The JSON returned by MarshalJSON and the content of json.RawMessage are first checked to be valid, and the call fails otherwise; then they are copied without the white space outside strings, and with U+2028, U+2029 and, unless NoHTMLEscaping is set, '<', '>' and '&' replaced by equivalent escapes. Every other byte, white space inside strings included, is preserved in order. With NoCompact the bytes are copied verbatim.",
["inputs","configurations"],"every byte sequence a marshaler may return",
"Tests use short documents; mistakes in the string/escape state only show for particular sequences of quotes and backslashes.",
["encode.go"],[("compaction loop","encode.go:appendCompactJSON"),("callers","encode.go:encodeJSONMarshaler,encodeRawMessage")],API)
prop("C05","Append keeps the bytes the caller already had",
"Append and AppendOpts return the caller's bytes unchanged, followed by the encoding of the value, whatever the length and capacity of the destination and whatever precedes the value in it; on an encoding error the returned slice still starts with the caller's bytes. No byte before the original length is ever read to decide the output, overwritten or dropped.",
["inputs","configurations"],"every destination slice and value",
"Tests append to nil or short slices; growth paths and in-place edits depend on capacity and on the preceding bytes.",
["json.go","encode.go","instruction.go","time.go"],[("append-only encoders","encode.go"),("growth of the destination","encode.go:encodeByteSlice"),("truncation of an omitted member","encode.go:encodeStruct"),("exponent clean-up","encode.go:appendFloat")],["Append","AppendOpts"])
prop("C06","Results are private and reused memory starts clean",
"The slice returned by Marshal and MarshalOpts never shares memory with an object the package keeps for later calls, and neither the caller's destination nor the value is kept for later calls to write to. An object taken from a reuse pool contributes nothing of its former content to an output, is not used after it has been given back, and is not given back twice.",
["histories","schedules"],"every sequence of calls, every interleaving",
"The effect of sharing needs a later or concurrent call that happens to reuse the same object with other content.",
["json.go","encode.go","buffer.go","map.go","map_1.18.go"],[("copy before release","json.go:marshalJSON"),("reset on reuse","buffer.go:cachedBuffer, map.go:releaseMapElems, map_1.18.go:newHiter")],["Marshal","MarshalOpts"],
[("bufferPool","reusable byte buffers","buffer.go"),("mapElemsPool","reusable key/value lists","map.go"),("hiterPool","reusable map iterators","map.go")])
prop("C07","Encoding only reads the value",
"No encoding call writes to memory reachable from the value being encoded, nor to the package's constant tables and the option values: apart from what the caller's own methods do, the value is the same before and after.",
["inputs","schedules"],"every value, every option set",
"A stray write through an unsafe pointer only shows when the value is inspected afterwards or shared between goroutines.",
["encode.go","instruction.go","types.go","unsafe.go","integer.go","time.go"],[("read-only views","unsafe.go:sp2b,unpackEface,packEface")],API)
prop("C08","Concurrent calls are safe",
"Any number of goroutines may encode values of any types, new or already seen, with any options at the same time without a data race: state shared between calls is only accessed through atomic operations, locks or concurrent containers, and whatever is published through it is complete and never modified afterwards. An encoder of a recursive type that another goroutine is still building is only run once it is complete.",
["schedules"],"every interleaving of calls",
"The race detector sees the interleavings that happen in a test run; the windows are on the first use of a type.",
["instruction.go","struct.go","types.go","buffer.go","map.go"],[("copy-on-write cache","instruction.go:storeInstr,loadCache"),("placeholder with WaitGroup","instruction.go:newRecursiveInstr"),("field cache","struct.go:cachedFields"),("empty func cache","types.go:cachedEmptyFuncOf")],API,
[("instrCachePtr","type to instruction map, replaced atomically","instruction.go"),("structInstrCache","instructions of recursive types","instruction.go"),("fieldsCache","fields of struct types","struct.go"),("emptyFnCache","zero-value predicates","types.go")])
prop("C09","Failures are reported, typed and yield no result",
"If encoding any part of a value fails, the call returns a non-nil error: no error of a nested element, key, marshaler method or option check is dropped or replaced by success, and encoding stops there. An error returned by a method of the caller is wrapped in a MarshalerError that carries the type that has the method, that error (available through Unwrap) and the name of the method that was called; option errors are wrapped in InvalidOptionError and unsupported types and values have their own error types. Marshal and MarshalOpts then return a nil slice.",
["inputs","fault_sequences"],"every position of a failing element, every failing method",
"Each test makes one shallow element fail; the property is about every error edge of every encoder.",
["json.go","encode.go","instruction.go"],[("error propagation","encode.go"),("wrapping","encode.go:encodeJSONMarshaler,encodeTextMarshaler,encodeAppendMarshaler,encodeAppendMarshalerCtx")],API)
prop("C10","Each option has its documented effect, at every depth",
"Every option changes the aspect it documents and nothing else, is independent of the order and number of the other options, and applies equally to values nested in pointers, interfaces, structs, arrays, slices, maps and sync.Map values and keys. A nil context, an empty time layout or an unknown duration format makes the call fail, for a value other than nil, before anything is encoded; nil options are ignored, and without options the defaults are those of Marshal.",
["configurations","inputs"],"every subset and order of options, every nesting",
"There are thousands of option subsets and unbounded nesting; tests try options one at a time on flat values.",
["options.go","json.go","encode.go"],[("options struct","options.go"),("propagation to nested encoders","encode.go, instruction.go")],["MarshalOpts","AppendOpts"])
prop("C11","Every Go kind is encoded by its own rule",
"A value of each kind is read with its own width and signedness and written in the form its kind demands: booleans as true or false, integers in decimal, strings and byte slices as strings, arrays and slices as arrays with all their elements in order, structs and maps as objects; the string tag option quotes booleans, integers, floats and strings and nothing else. Chan, func, complex and unsafe pointer values, and maps whose keys are neither strings, integers nor text marshalers, are rejected with an error that names the type.",
["inputs","programs"],"every type that can be written in Go, every value",
"There is one encoder per kind and context; tests sample a few values, rarely the extremes of every width.",
["instruction.go","integer.go","encode.go","types.go"],[("dispatch on kind","instruction.go:newInstruction,newBasicTypeInstr"),("leaf encoders","integer.go, encode.go")],API)
prop("C12","Marshaler methods have a fixed precedence",
"For a type with several marshaling methods the one used is, in order: AppendJSONContext, AppendJSON, MarshalJSON, MarshalText, before the encoding of its kind; methods with a pointer receiver count for addressable values only, and time.Time, time.Duration, json.Number, json.RawMessage and sync.Map keep their built-in encoding. The method receives the value itself, and a nil pointer or nil interface is encoded as null without calling the method. A string-kind map key never uses a method, other keys only MarshalText.",
["programs","inputs"],"every method set, every addressability, every container",
"The number of combinations of method sets, receivers, kinds and containers is large; tests cover each method mostly alone.",
["instruction.go","encode.go"],[("precedence","instruction.go:newMarshalerTypeInstr,newInstruction,newMapKeyInstr"),("calls","encode.go:encodeMarshaler")],API)
prop("C13","Every map entry is encoded exactly once, in order",
"The object written for a non-empty map or sync.Map has one member for each entry, its key next to its own value. Members are in ascending byte order of the keys as written, unless UnsortedMap is set; no entry is lost, duplicated or paired with the value of another one, whatever the size of the map and the nesting of maps within maps.",
["inputs","histories"],"every map, every nesting, every size",
"The iteration state and scratch buffers are reused between maps; mix-ups need particular sizes or nesting.",
["encode.go","map.go","map_1.18.go"],[("iteration and sort","encode.go:encodeSortedMap,encodeUnsortedMap,encodeSortedSyncMap,encodeUnsortedSyncMap"),("order","map.go:mapElems.Less")],API)
prop("C14","Struct members are those encoding/json selects",
"The members of an object written for a struct, their names and their order, are those encoding/json would use: unexported fields, fields tagged \"-\" and embedded unexported non-struct types are skipped, tag names are used when valid, fields of embedded structs are promoted with Go's depth and tag dominance rules, and ties eliminate all candidates. Each member's value is read from its own field, through the embedded structs and pointers that lead to it, and is left out when one of these pointers is nil.",
["programs"],"every struct type",
"The number of embedding graphs and tag combinations is unbounded; tests have a handful of struct types.",
["struct.go","tags.go","encode.go"],[("field scan","struct.go:scanFields,structFields"),("dominance","struct.go:dominantField,filterByVisibility,sortFields"),("offset walk","encode.go:encodeStruct")],API)
prop("C15","omitempty and omitnil drop exactly what they describe",
"A member with omitempty is left out exactly when its value is false, zero, a nil pointer or interface, or a string, slice, map or array of length zero, for each kind of field; a member with omitnil exactly when it is a nil pointer, interface, slice or map, or when its json.Marshaler wrote null. Members without these options are never left out for their value, and leaving one out never disturbs the others.",
["inputs","programs"],"every field kind and value, every position of the omitted members",
"The predicate is chosen per kind; tests use a few zero values.",
["types.go","struct.go","instruction.go","encode.go"],[("zero-value predicates","types.go:emptyFuncOf"),("omission","encode.go:encodeStruct")],API)
prop("C16","Every type gets its own encoder, and gets it in finite time",
"Preparing the encoder of a type terminates for every Go type, self-referential struct, slice, map, array and pointer types included, and does not depend on which types were prepared before. An encoder found in a cache is one prepared for the same type in the same context, that is with everything that influences it being part of the cache key.",
["programs","histories"],"every type, every order of first use",
"Depends on the history of types seen by the process and on type graphs; a test process sees few.",
["instruction.go","struct.go","types.go"],[("caches","instruction.go:cachedInstr,newRecursiveInstr; struct.go:cachedFields; types.go:cachedEmptyFuncOf")],API,
[("instrCachePtr","type to instruction map","instruction.go"),("structInstrCache","instructions of recursive types","instruction.go")])
prop("C17","Raw memory is read with the layout the runtime uses",
"Wherever the code reads a value through an unsafe pointer, the type it reads matches the type that is stored there: data words of interfaces, slice and string headers, element strides, field offsets, the map iterator and the runtime functions it is passed to. Values the runtime stores directly in an interface word, and only those, are treated as such, and pointers derived from a value are never kept where the garbage collector cannot see them.",
["programs","inputs"],"every type, every value",
"A wrong layout is often invisible until a specific size, alignment or collection point.",
["unsafe.go","map.go","map_1.18.go","instruction.go","encode.go","types.go"],[("header types","unsafe.go"),("direct interface test","types.go:isInlined"),("iterator","map.go:hiter")],API)
prop("C18","Times are rendered in RFC 3339 form or rejected",
"With the RFC 3339 layouts a time is written as YYYY-MM-DDThh:mm:ss, an optional fraction of at most nine digits without trailing zeros, and Z or a signed hh:mm offset, every position holding a digit in its range; the fraction appears only with the nanosecond layout and a non-zero fraction. Times outside the years 0 to 9999, and offsets of 24 hours or more, are rejected with an error; UnixTime writes the Unix seconds, and other layouts the text that the time package formats, as a JSON string.",
["inputs","configurations"],"every time instant, location and layout",
"Tests sample a few dates; digit extraction fails at particular boundaries.",
["time.go","encode.go"],[("formatting","time.go:appendRFC3339Time"),("checks","encode.go:encodeTime")],API)
prop("C19","Durations are rendered in the configured unit",
"A time.Duration is written as the number of its nanoseconds, microseconds, milliseconds (truncated integers), seconds or minutes (floating point), or as the text of its String method, exactly as selected by DurationFormat, the extreme values included; the default is nanoseconds.",
["inputs","configurations"],"every duration and format",
"Tests use a handful of durations.",
["time.go","encode.go"],[("selection","encode.go:encodeDuration"),("text","time.go:appendDuration,fmtFrac,fmtInt")],API)
prop("C20","Allow and deny lists select members by output name",
"With AllowList only the members whose written name is in the list are encoded, with DenyList those in the list are left out, and a name in both is left out; the comparison is on the exact name, and applies to structs at every depth and to nothing else. Without these options no member is filtered, and an empty list is not the same as no list.",
["configurations","inputs"],"every pair of lists, every struct",
"Tests use one struct and short lists.",
["options.go","encode.go"],[("filter","options.go:isDeniedField, encode.go:encodeStruct")],["MarshalOpts","AppendOpts"])
prop("C21","Floating-point numbers use the ES6 notation rule",
"A finite float is written with the shortest digits that identify it at its own precision (32 or 64 bits), in exponent form exactly when its magnitude is non-zero and below 1e-6 or at least 1e21 (compared at that precision), with a two-digit negative exponent shortened, and in plain decimal form otherwise. NaN and infinities are always rejected with an UnsupportedValueError.",
["inputs"],"every float32 and float64",
"Tests sample a few magnitudes; boundaries and the float32 comparison differ on single values.",
["encode.go"],[("notation","encode.go:appendFloat"),("callers","encode.go:encodeFloat32,encodeFloat64,encodeDuration")],API)
prop("C22","No input makes the code panic on an index",
"For every value, option set and type description, no index, slice, division or type assertion in the package can fail at run time; the benchmark table converter of the repository likewise answers malformed input with an error.",
["inputs","programs","configurations"],"every input of every function reachable from the exported API and of the converter",
"An out-of-range index needs the one length or content that the code did not consider.",
["encode.go","time.go","number.go","struct.go","map.go","tools/benchparse/benchparse.go"],[("bounds guards","encode.go, time.go, number.go, tools/benchparse/benchparse.go")],API+["benchparse"])
prop("C23","Nil values encode as null or as the configured empty form",
"A nil pointer or interface, at the top level or nested, encodes as null; a nil slice as null, or [] with NilSliceEmpty; a nil map as null, or {} with NilMapEmpty; nil byte slices and json.RawMessage as null in every configuration. Non-nil empty slices and maps encode as [] and {}, and empty structs and sync.Maps as {}.",
["inputs","configurations"],"every nilable type at every position, every option set",
"Each container and option has its own nil test; tests cover the flat cases.",
["encode.go","json.go"],[("nil tests","encode.go:encodePointer,encodeSlice,encodeMap,encodeByteSlice,encodeInterface,encodeRawMessage,encodeMarshaler")],API)
prop("C24","The benchmark converter keeps every record",
"The benchmark table converter stores each benchmark line under its benchmark and run name with the unit of the section it belongs to (the unit of the last header; a header is the first line and every line after an empty one), and reports the first malformed header, name or number, and any read or write failure, instead of producing a partial table silently. The column headers it writes are those of the statistics that are not omitted by a flag, in the order in which benchstat writes its sections, which is the order of the values; each row starts with the name of its run.",
["inputs","configurations"],"every input file, every combination of flags",
"The tool has no tests.",
["tools/benchparse/benchparse.go"],[("parsing","tools/benchparse/benchparse.go:parse"),("table","tools/benchparse/benchparse.go:transform")],["benchparse"])
# declined
prop("C25","Numeric text equals the value",
"Every number written, in plain, float or duration form, parses back to exactly the value it was made from, and every date and time written denotes the same instant as the time it was made from.",
["inputs"],"every number and time",
"Round-trip equality over 64-bit inputs.",
["encode.go","integer.go","time.go"],[("digit generation","strconv; time.go:rdnToYmd,appendRFC3339Time,appendDuration")],API)
prop("C26","Encoding terminates for every value",
"A call returns for every value, cyclic data included (with an error in that case, as encoding/json does), in time and memory proportional to the size of the value and of its encoding.",
["inputs"],"every value, every object graph",
"Cyclic values and very large values are not in the tests.",
["encode.go","instruction.go"],[("recursion over pointers","encode.go:encodePointer,encodeInterface")],API)
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
