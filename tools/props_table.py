prop("C01", "JSON round trip preserves every tree",
 "Any value tree of objects with distinct keys, arrays, valid UTF-8 strings, 64-bit integers, finite floating-point numbers, booleans and null, once encoded as JSON (compact or indented, with either escaping style) and decoded again (as a new value or loaded into an existing one, cached or not, sharing the input or not), is the same tree: same shape, key order, strings and numeric values. The encoded text is always one well-formed standard JSON document denoting that tree, also when the tree holds binary data (encoded as some JSON value), or was decoded from text with raw control characters or unknown escapes, read or not. Strings spelled as Date(...) literals are excepted, and the no-escape style is covered only for text that needs no escaping.",
 ["inputs", "configurations"], "all trees up to a node bound over leaf and key alphabets with one representative per escape, length and number class, times all encoder/decoder modes",
 TESTS + "; one or two small documents are parsed and re-printed.",
 ["jsonparse.go", "dxvalue.go", "reflect_parse.go"], [("escaping and number formatting", "jsonparse.go Value2Json, formatValue"), ("lazy unescaping", "dxvalue.go String, UnEscapestrs"), ("number scanning", "jsonparse.go parseJsonNum")],
 ["ToJson", "Value2Json", "Value2FormatJson", "Marshal", "NewValueFromJson", "LoadFromJson", "Unmarshal"],
 "bounded-exhaustive enumeration of trees x modes on the real code against a reference tree model and encoding/json",
 "Every tree within the bounds is encoded and decoded by the real code in every mode; the reference model and encoding/json are trusted. Values outside the alphabets are not covered.")

prop("C02", "JSON decoding means what standard JSON means, and rejects broken text",
 "Every standard JSON document decodes to the tree it denotes: all escape sequences (including surrogate pairs), all number spellings, any white space, keys in document order, values reachable by decoded key, by index and by visiting. Text whose bracket, separator, string-termination or literal structure is broken, is truncated, or has trailing garbage is rejected with an error whose message can be read, through every JSON entry point. (Accepted dialect extensions: inf/nan literals, lenient number spelling, raw control characters and unknown escapes in strings, Date(...) literals as times. Numbers beyond the range of a double, lone surrogates, duplicate keys, empty input and nesting beyond 100,000 levels are outside.)",
 ["inputs", "configurations"], "all token sequences up to a length bound, all escape/number spellings over small alphabets, all prefixes of a document set, through every entry point and mode",
 TESTS + "; no malformed document is ever parsed.",
 ["jsonparse.go", "dxvalue.go", "reflect_parse.go"], [("recursive descent parser", "jsonparse.go parseJsonValue, parseJson2Value"), ("key and string scanning", "jsonparse.go parseJsonKey, parseJsonString"), ("error value", "jsonparse.go ErrorParseJson")],
 ["NewValueFromJson", "LoadFromJson", "Unmarshal", "ValueByName", "Items", "Visit"],
 "exhaustive enumeration of JSON token sequences against encoding/json as reference acceptor and decoder",
 "All token sequences within the length bound are decided by the real parser and by the reference; documents longer than the bound are not covered.")

prop("C03", "MsgPack encoding is spec-conformant and round trips",
 "Encoding any value tree (including binary, extension data of every size, and date-times) as MessagePack yields exactly one well-formed MessagePack object that a specification-following decoder reads as the same tree, and this library's own decoder (new or loaded, cached or not, shared or copied) reads back as the same tree with the same types, whatever the length of strings, binaries, arrays and maps and the magnitude of integers.",
 ["inputs", "configurations"], "all trees up to a node bound over typed leaves; all lengths through every header-size boundary; all integers around every width boundary",
 TESTS + "; one 4 KB file is decoded and re-encoded without comparing.",
 ["msgpackparse.go", "msgpack_value.go", "msgpack_codes.go"], [("header writers", "msgpack_value.go writeStrCode, writeMapCode, writeArrayCode, writeBinCode, writeExtCode, writeInt"), ("encoder", "msgpackparse.go Value2MsgPack"), ("decoder", "msgpackparse.go parseMsgPackValue, parseMsgPack2Value")],
 ["Value2MsgPack", "ToMsgPack", "NewValueFromMsgPack", "LoadFromMsgPack"],
 "bounded-exhaustive enumeration of trees and boundary sizes against an independent reference MessagePack codec",
 "Reference codec written from the MessagePack specification is trusted; sizes above 65536+1 elements are represented by single cases.")

prop("C04", "MsgPack decoding accepts every legal encoding and no truncated one",
 "Every legal MessagePack encoding of a tree with string keys and 64-bit signed integers (any permitted width for each integer, string, binary, extension, array, map, and all three timestamp forms) decodes to that tree, through every MessagePack entry point and mode. Every non-empty proper prefix of an encoding, and every encoding containing the reserved code, is rejected with an error. (Timestamps are the extension of type -1 in the three forms the specification defines; bytes after the first object are ignored; nesting beyond 100,000 levels is outside.)",
 ["inputs", "configurations"], "all width choices for all trees up to a bound; all proper prefixes of all those encodings; all entry points",
 TESTS + "; only encodings produced by one other program are decoded, never a truncated one.",
 ["msgpackparse.go", "msgpack_value.go", "msgpack_codes.go"], [("code classification", "msgpack_codes.go"), ("length readers", "msgpack_value.go parseLen, parseExtLen, parseMapLen, parseArrLen")],
 ["NewValueFromMsgPack", "LoadFromMsgPack"],
 "exhaustive enumeration of encodings (all width choices) and of all truncation points against the reference codec",
 "As C03; fault enumeration is over truncation points, not over bit flips.")

prop("C05", "BSON encoding is spec-conformant and round trips",
 "Encoding any object tree (keys without NUL) as BSON yields a document whose lengths, types and terminators follow the BSON specification, which a specification-following decoder reads as the same tree, and which this library decodes (new or loaded, cached or not, shared or copied) to the same tree: integers of either sign and width, floating-point numbers, strings, binaries, booleans, nulls, date-times to the millisecond, object ids, decimals, timestamps, empty and nested documents and arrays. (Single-precision floats are stored as doubles; MessagePack extension data, which BSON cannot express, is outside.)",
 ["inputs", "configurations"], "all object trees up to a node bound over typed leaves, all boundary sizes and integers, all modes",
 TESTS + "; one object without negative numbers, arrays, binaries or empty containers is converted.",
 ["bson_parse.go", "bson_code.go"], [("document writer with back-patched length", "bson_parse.go writeObjBsonValue, writeArrayBsonValue"), ("element types", "bson_parse.go writeBsonElementType"), ("reader", "bson_parse.go parseBsonDocument, parseBsonArray, parseValue")],
 ["Value2Bson", "ToBson", "NewValueFromBson", "LoadFromBson"],
 "bounded-exhaustive enumeration of object trees against an independent reference BSON codec",
 "Reference BSON codec written from the specification is trusted.")

prop("C06", "BSON decoding accepts legal documents and no truncated one",
 "Every legal BSON document made of the supported element types (double, string, document, array, binary of any subtype, object id, boolean, UTC date-time, null, int32, timestamp, int64, decimal128) decodes to the tree it denotes in every mode. Every non-empty proper prefix of such a document, and a document whose declared length is impossible, is rejected with an error. (Nesting beyond 100,000 levels is outside.)",
 ["inputs", "configurations"], "all documents up to a bound over every supported element type, and all their truncation points, in all modes",
 TESTS + "; no foreign or truncated BSON is ever decoded.",
 ["bson_parse.go"], [("document loop", "bson_parse.go parseBsonDocument"), ("value reader", "bson_parse.go parseValue")],
 ["NewValueFromBson", "LoadFromBson"],
 "exhaustive enumeration of documents and truncation points against the reference BSON codec",
 "As C05.")

prop("C07", "Decoders are total: value or error on any bytes, never crash or hang",
 "For every byte string, every decoder (JSON, MessagePack, BSON, YAML; new or loaded, cached or not, shared or copied) terminates after work and memory proportional to the input and either reports an error with a readable message or delivers a non-nil value. It never panics, and after either outcome the delivered or loaded value can be inspected, printed and re-encoded in every format without panicking, again with work and memory proportional to the size. However deep the input nests, the process survives: at least up to 100,000 levels it is decoded, and deeper input may be refused with an error. (For YAML with aliases memory is proportional to the expanded document; decoding the keys of one map is allowed quadratic work.)",
 ["inputs", "fault_sequences", "configurations"], "all byte strings up to a length over per-format alphabets; families of documents growing in one feature; all single-byte substitutions, truncations and insertions of seed documents",
 TESTS + "; they only feed well-formed documents.",
 ["jsonparse.go", "msgpackparse.go", "msgpack_value.go", "bson_parse.go", "yamlparse.go", "dxvalue.go"], [("bounds checks", "all parse functions"), ("line loop", "yamlparse.go parse")],
 ["NewValueFromJson", "NewValueFromMsgPack", "NewValueFromBson", "NewValueFromYaml", "LoadFrom*"],
 "exhaustive enumeration of short byte strings and of all one-byte faults on seed documents, with a deterministic statement-step budget and allocation budget as hang/blow-up oracle",
 "Termination is decided by a step counter compiled into the library, not by wall clock. Inputs longer than the bounds or with several simultaneous faults are not covered.")

prop("C08", "YAML block documents decode to the tree they describe",
 "A YAML document in plain block style (nested mappings and sequences of plain scalars, consistently indented, with comments and blank lines anywhere) decodes to the tree it describes: key order, nesting, sequences inside mappings, mappings inside sequences, and scalars as booleans, numbers or text. A plain text that goes on over further, deeper indented lines is those lines joined by single spaces, and a key's scalar may start on the next line. Loading it into an existing value, or decoding it cached, gives the same tree. (Flow style, quoting, blank lines or comments inside a text of several lines, missing values, several dashes on one line, document markers (---) and the words null, inf and nan are outside.)",
 ["inputs", "configurations"], "all trees up to a bound rendered with all indentation, comment, blank-line and line-end layouts, in all modes",
 TESTS + "; two small documents are printed.",
 ["yamlparse.go"], [("line classifier and indentation stack", "yamlparse.go parseLine, parseArray, parseObject"), ("scalar typing", "yamlparse.go parseStringValue")],
 ["NewValueFromYaml", "LoadFromYaml"],
 "bounded-exhaustive enumeration of trees x layouts rendered to YAML, decoded by the real parser and compared with the tree",
 "The renderer defines the covered YAML subset; flow style, quoting and block scalars are outside (documented as unsupported by the project).")

prop("C09", "YAML anchors, aliases and merge keys copy by value",
 "In a block-style YAML document an alias stands for an independent copy of the most recent value anchored under that name earlier in the document, and a merge key adds every entry of the anchored mapping whose key the receiving mapping does not set itself. Changing one copy afterwards never changes the anchor or another copy, and anchors never leak from one document into another. (Undefined or recursive aliases, several merge keys in one mapping, and the position of merged entries among the mapping's own are unspecified.)",
 ["inputs", "histories"], "all small documents combining anchors, aliases and merges at every position, and all pairs of such documents decoded in sequence",
 TESTS + "; one alias inside one document is printed.",
 ["yamlparse.go", "dxvalue.go"], [("anchor table", "yamlparse.go setCachedUseage, getUseage, reset"), ("merge", "yamlparse.go mergeObject; dxvalue.go AddFrom")],
 ["NewValueFromYaml", "LoadFromYaml"],
 "exhaustive enumeration of small anchor/alias/merge documents and document pairs against a reference expander",
 "Covers mappings and scalars as anchored values at the positions the renderer produces.",
 state=[("parser pool", "recycled parsers", "yamlparse.go yamlparserPool")])

prop("C10", "Decoding and encoding never alias or modify caller buffers unasked",
 "A decoder never modifies the input bytes; unless sharing was requested, the decoded value keeps no reference to them, so overwriting the input afterwards changes nothing in the value, and changing the value never changes the input. Encoders never hand out memory belonging to the value: overwriting an encoder's output, or a binary that was stored with copying requested, leaves the value as it was. With sharing, later writes to the input may show in the value, but setting one value still never writes to the shared memory, so neither the input nor any other value sharing it changes.",
 ["inputs", "configurations", "histories"], "all documents of a bounded set per format, all modes, all positions overwritten, all later reads",
 TESTS + "; no buffer is reused in any test.",
 ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go", "bin_value.go"], [("sharebinary flag", "every parser"), ("SetBinary clone flag", "bin_value.go SetBinary")],
 ["NewValueFrom*", "LoadFrom*", "SetBinary", "ToJson", "ToMsgPack", "ToBson"],
 "exhaustive enumeration of documents x modes x overwrite patterns with full observation before and after",
 "Observation compares the complete tree; writes by the caller through the slice Binary() hands out are outside.")

prop("C11", "Caching and recycling never change results",
 "Whatever was decoded, built, loaded, cleared or freed before, and whether or not caching is used, every operation on a fresh value gives the result it gives in a fresh process with caching off; in particular a recycled value starts empty or zero. A value that has not been freed or cleared keeps its content while other values are created, freed and recycled.",
 ["histories", "configurations"], "all sequences up to a bound of decode/build/clear/free sessions over a document set, in cached and uncached mode, with all recycler answers (reuse or miss) up to a deviation bound",
 TESTS + "; values are freed at most once at the end, and each test runs in its own process.",
 ["cache.go", "dxvalue.go", "yamlparse.go", "msgpackparse.go"], [("value cache and pool", "cache.go getValue, getCache, Reset, FreeValue"), ("Clear/Reset", "dxvalue.go Clear, Reset"), ("parser pool", "yamlparse.go newyamParser, reset")],
 ["NewCacheValue", "NewValueFrom*", "Clear", "FreeValue"],
 "explicit-state exploration of session sequences on the real code with a deterministic recycler whose answers are enumerated, compared with a fresh-state run of each session",
 "The recycler (sync.Pool) is replaced at build time by a deterministic one whose hit/miss answers are explored.",
 state=[("value cache pool", "recycled blocks of values", "cache.go ValueCachePool"), ("yaml parser pool", "recycled parsers", "yamlparse.go yamlparserPool")])

prop("C12", "Goroutines working on separate values never disturb each other",
 "When several goroutines each decode, build, modify, read, encode, clone, convert and free their own values at the same time, each obtains exactly the results it would obtain alone, in every interleaving. No interleaving panics, deadlocks or lets a value of one goroutine change because of another.",
 ["schedules"], "all interleavings up to a preemption bound, at statement granularity, of 2 (and 3) goroutines running operation scripts over all formats, cached and uncached",
 TESTS + "; no test starts a goroutine (benchmarks run in parallel but are not run and check nothing).",
 ["cache.go", "yamlparse.go", "struct_type.go", "reflect_parse.go", "dxvalue.go"], [("pools", "cache.go ValueCachePool, yamlparse.go yamlparserPool"), ("type map", "struct_type.go structTypePool"), ("shared constants", "jsonparse.go valueTrue and siblings")],
 ["all public API on goroutine-private values"],
 "stateless model checking of the real code: controlled scheduler with a switch point before every statement of the library, iterative preemption bounding",
 "Sequentially consistent interleavings at statement granularity; weak-memory effects and preemption inside one statement or inside dependencies are not modelled. sync primitives are replaced by scheduler-aware equivalents.",
 state=[("process-wide pools and constants", "the only state goroutines share", "cache.go, yamlparse.go, struct_type.go, jsonparse.go")])

prop("C13", "Copies are complete and independent",
 "Cloning a value (cached or not), copying it into another value, storing it through the generic setter SetValue, or merging it in, yields a tree equal to what the source was at that moment, in every respect (types, binary and extension data, subtype markers, keys, order), also when source and destination are parts of one tree. Afterwards no change to either side, and neither clearing nor freeing either side, is visible in the other.",
 ["inputs", "histories", "configurations"], "all trees up to a bound, all copy operations, followed by every single mutation at every node of either side",
 TESTS + "; one clone is printed and never modified.",
 ["dxvalue.go", "reflect_parse.go"], [("clone", "dxvalue.go clone, Clone"), ("CopyFrom, AddFrom", "dxvalue.go")],
 ["Clone", "CopyFrom", "AddFrom", "SetValue", "MergeWith"],
 "bounded-exhaustive enumeration of trees x copy operations x mutation sites on the real code against the reference tree model",
 "Binary content is copied by value; trees above the bound are not covered.")

prop("C14", "Objects and arrays behave as an ordered map and a list",
 "Under every sequence of set, replace, insert, append, remove, extract, clear, reset and look-up operations, an object behaves as an insertion-ordered map with unique keys (case-insensitive when that global option is on) and an array as a list in which setting at an existing index replaces in place, any other index appends, and insertion shifts the rest. Count, look-up by name or index, item iteration and visiting always agree with each other and with the operations performed, whether the value was built, decoded or recycled; changing a value's kind starts from an empty value of the new kind, while addressing an existing entry with the kind it already has keeps its content.",
 ["histories", "configurations"], "all operation sequences up to a depth from several initial states, with case sensitivity on and off",
 TESTS + "; a dozen fixed setter calls are printed.",
 ["dxvalue.go"], [("key table", "dxvalue.go VObject getKv, indexByName, Remove, ExtractValue"), ("setters", "dxvalue.go SetKeyCached, SetIndexCached, InsertValue, RemoveIndex")],
 ["SetKey*", "SetIndex*", "RemoveKey", "ExtractValue", "RemoveIndex", "InsertValue", "Append", "Count", "Items", "Visit", "ValueByName", "ValueByIndex", "KeyNameByIndex"],
 "explicit-state breadth-first search over operation sequences of the real containers in lockstep with a reference ordered-map/list model",
 "Depth-bounded; state deduplication uses the complete model state plus the full observable state of the real value.")

prop("C15", "Path access reaches exactly the addressed node",
 "Look-up by path returns the node reached by following each name (or array position) in turn, or the caller's default exactly when some step does not exist, in every typed variant. Forcing a path creates only the missing containers on the way, returns the node of the requested kind that a look-up of the same path then finds, and leaves everything off that path unchanged. (Names applied to arrays, positions beyond the next free one, and forcing constants or not yet read text to their own kind are outside.)",
 ["inputs", "histories"], "all trees up to a bound, all paths up to length 3 over present and absent names and positions, all requested kinds",
 TESTS + "; two forced paths are printed.",
 ["dxvalue.go"], [("ForcePath", "dxvalue.go ForcePath"), ("ValueByPath and typed variants", "dxvalue.go *ByPath, As*, *ByName")],
 ["ForcePath", "ValueByPath", "StringByPath", "IntByPath", "As*", "*ByName", "*ByIndex"],
 "bounded-exhaustive enumeration of trees x paths x kinds against a reference path model",
 "Forced array positions are limited to existing positions and the next free one; forcing through a scalar replaces that scalar.")

prop("C16", "Merging is a deep union and touches nothing else",
 "Merging one object into another adds every entry the receiver lacks, merges entries both hold as objects recursively and entries both hold as arrays by set union, combines a scalar of the receiver with the incoming value into an array of both (or replaces or keeps the receiver's, as the caller's callback decides), for every entry at every level regardless of order. Set union of arrays appends each incoming element the receiver does not hold yet. The callback sees each conflicting entry once with its exact slash-separated path, and the merged-in value is left unchanged and shares nothing with the receiver.",
 ["inputs", "configurations"], "all pairs of trees up to a bound, all callback decision functions over the conflicting paths",
 TESTS + "; one pair is merged and printed, with a single nested object.",
 ["dxvalue.go"], [("mergeObject", "dxvalue.go mergeObject, MergeWith")],
 ["MergeWith"],
 "bounded-exhaustive enumeration of tree pairs x callback decisions against a reference merge",
 "Entries of different container kinds (object against array or scalar) are covered as documented by the reference: the receiver keeps its container.")

prop("C17", "Equality is structural and an equivalence",
 "Two values compare equal exactly when they denote the same data: same keys in the same order, same elements and lengths, same text, same bytes (with subtype marker), same constants, and numerically equal numbers. Comparison is reflexive, symmetric and transitive, never panics, does not depend on how or from which format a value was produced or whether it has been read before, and changes neither side.",
 ["inputs", "histories"], "all pairs (and triples) of trees up to a bound, each produced in several ways and read states",
 TESTS + "; equality is only used inside one array merge.",
 ["dxvalue.go"], [("Equal", "dxvalue.go Equal")],
 ["Equal"],
 "bounded-exhaustive enumeration of all pairs of trees and production histories against reference structural equality",
 "Times are compared across formats only when they are whole seconds, because formats round them differently.")

prop("C18", "Reading is pure",
 "Reading a value (printing, typed access, look-up of present or absent names, iteration, comparison, encoding in any format, cloning) never changes what any later read returns: every sequence of reads returns what each read returns on a freshly decoded value. This holds for decoded values whose text contains escape sequences as much as for built ones. (Whether unread text is reported as raw or plain string kind may change on first reading.)",
 ["histories"], "all sequences of read operations up to a depth on all values of a document set",
 TESTS + "; reads are never repeated or compared.",
 ["dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go"], [("lazy unescaping of strings and keys", "dxvalue.go String, UnEscapestrs")],
 ["String", "Int", "Visit", "Items", "ValueByName", "ToJson", "ToMsgPack", "ToBson", "Equal", "Clone", "ToStdValue"],
 "explicit-state exploration of all read sequences up to a depth; every read compared with the same read on a fresh value",
 "JSON text is compared after normalisation by encoding/json, because lazily decoded text may legitimately be spelled with different escapes.")

prop("C19", "Encoders append exactly the encoding",
 "Every encoder that takes a destination buffer returns that buffer's content unchanged followed by exactly the bytes it produces for an empty destination, for every prefix length and spare capacity, without disturbing any other memory of the caller's buffer below its length. Encoding the same unchanged value twice gives the same bytes.",
 ["inputs", "configurations"], "all trees up to a bound, all prefixes and capacities of a set, all encoders and styles",
 TESTS + "; only nil destinations are passed (one 1 KB empty buffer is passed once).",
 ["jsonparse.go", "msgpackparse.go", "bson_parse.go"], [("append-style writers, back-patched lengths", "Value2Json, Value2MsgPack, writeObjBsonValue")],
 ["Value2Json", "Value2FormatJson", "Value2MsgPack", "Value2Bson", "ToJson", "ToMsgPack", "ToBson"],
 "bounded-exhaustive enumeration of trees x destination shapes x encoders",
 "Prefixes up to 64 KB are sampled at boundary lengths only.")

prop("C20", "Scalars read back as set, whatever they held before",
 "After setting a value to an integer, float, double, string, boolean, time or binary, the typed read returns exactly that (times to the millisecond), the value's kind is the one set, and the cross-kind reads (text to number, number to text, number to boolean, duration) give the natural conversion, independent of anything the value held before. Typed default reads return the default exactly when nothing is there. (Subtype markers of decoded BSON values are outside.)",
 ["inputs", "histories"], "all sequences of up to three setters over boundary values on every kind of value, followed by all reads",
 TESTS + "; setters are never read back.",
 ["dxvalue.go", "bin_value.go"], [("scalar storage", "dxvalue.go SetInt, SetDouble, SetFloat, SetTime, Reset"), ("typed reads", "dxvalue.go Int, Double, Float, Bool, String, Duration")],
 ["SetInt", "SetFloat", "SetDouble", "SetString", "SetBool", "SetTime", "SetBinary", "SetExtType", "Int", "Float", "Double", "Bool", "String", "GoTime", "DateTime", "Duration", "Binary", "BinLen", "BinExtType"],
 "explicit-state exploration of setter sequences in lockstep with a reference scalar model",
 "A double setter on a value already holding a time keeps its kind, as does a time setter on a double; the model reproduces this.")

prop("C21", "Shared constants are immutable",
 "The true, false, null, nan and inf values handed out by constructors and decoders are read-only: no sequence of public operations applied to one (or to a tree containing one) changes what that constant, or any other value in which it appears, reads, prints or encodes as, now or later. Replacing such an entry through its container works normally.",
 ["histories"], "all sequences of mutating operations up to a depth applied to each constant obtained in every way, then every observation of all constants",
 TESTS + "; constants are never mutated and re-checked.",
 ["dxvalue.go", "jsonparse.go", "reflect_parse.go", "bson_parse.go"], [("ReadOnly checks", "dxvalue.go ReadOnly, Reset, SetBool, SetDouble, SetFloat"), ("package-level constants", "jsonparse.go valueTrue, valueFalse, valueNull, valueNAN, valueINF")],
 ["all mutators", "NewValue", "NewCacheValue"],
 "explicit-state exploration of mutator sequences on the constants with complete observation after every step",
 "The exported field DataType can be assigned directly by callers; that is outside the property.",
 state=[("process-wide constants", "shared by every tree", "jsonparse.go")])

prop("C22", "Go data converts in and out without loss",
 "Building a value from Go data (all integer widths, floats, strings, booleans, times, byte slices, maps with string keys, slices, structs, pointers to them (nil ones becoming null) and library values, nested in any way) yields the tree with the same content, and converting a tree to Go data (scalar pointers, string maps, generic maps and slices, typed slices, structs, registered and self-converting types) fills in exactly that content, element for element and field for field, at every nesting level. Converting in and back out returns the original data. (Pointers to pointers or interfaces, Go arrays, unexported fields, named byte slices, and converting into maps or structs that already hold content are outside; what a destination slice held before does not matter.)",
 ["inputs", "programs"], "all Go values of a bounded family of types (every kind at every nesting position) with boundary contents, through every generic setter and converter",
 TESTS + "; one struct without unsigned, pointer or slice content is converted.",
 ["reflect_parse.go", "struct_type.go"], [("generic setters", "reflect_parse.go SetValue, SetKeyvalue, SetIndexvalue"), ("converters", "reflect_parse.go ToStdValue, decodeArray2reflect, decode2reflectFromdxValue")],
 ["NewValueFrom", "SetValue", "SetKeyvalue", "SetIndexvalue", "ToStdValue", "RegisterTypeMapFunc"],
 "bounded-exhaustive enumeration of (Go type shape x position x content) with reflect-built values, against a reference converter",
 "Nil typed pointers at top level, channels, functions, complex numbers and maps with other key types are outside.")

prop("C23", "Times survive storage and every format",
 "With the process in UTC, an instant between 1900 and 2190 stored in a value (given in any zone) reads back within one millisecond, keeps its kind, and survives MessagePack and BSON within two milliseconds and the JSON date literal to the second; printed date text parses back to the second. Decoding the three MessagePack timestamp forms and BSON date-times gives the instant they denote.",
 ["inputs", "configurations"], "all calendar days of the range at boundary times of day, all second-of-day values on boundary days, all formats and modes",
 TESTS + "; the current time is stored and printed.",
 ["dxvalue.go", "msgpackparse.go", "bson_parse.go", "jsonparse.go"], [("time encodings", "msgpackparse.go Value2MsgPack, bson_parse.go writeSimpleBsonValue, jsonparse.go Value2Json"), ("time reads", "dxvalue.go GoTime, DateTime, SetTime")],
 ["SetTime", "SetKeyTime", "SetIndexTime", "GoTime", "DateTime", "TimeByName", "GoTimeByPath", "encoders and decoders"],
 "exhaustive enumeration of days and boundary times through every store/encode/decode path against time.Time arithmetic",
 "The process runs in UTC: the calendar conversion lives in a dependency that is not correct for zones with historic offsets.")

prop("C24", "Files round trip and file errors are reported",
 "Writing a value to a JSON file (with or without byte-order mark, compact or indented) and reading it back yields the same tree; the MessagePack and YAML file readers give what decoding the file's bytes gives; saving and loading binary data through files preserves every byte, for every file size, replacing any longer previous content. Opening a missing or unwritable path returns an error and leaves the value as it was.",
 ["inputs", "configurations", "fault_sequences"], "all file sizes around buffer boundaries, all trees of a set, all BOM/format options, previous file content longer/shorter/absent, missing paths",
 TESTS + "; file reads fail in this environment and the errors are ignored.",
 ["jsonparse.go", "iofiles.go", "bin_value.go", "msgpackparse.go", "yamlparse.go"], [("ReadFile", "iofiles.go"), ("Value2File, New*File", "jsonparse.go"), ("binary files", "bin_value.go")],
 ["Value2File", "NewValueFromJsonFile", "NewValueFromMsgPackFile", "NewValueFromYamlFile", "SaveBinaryToFile", "SetBinaryFromFile", "ReadFile"],
 "bounded-exhaustive enumeration of contents x sizes x options in a private scratch directory",
 "Files are created only inside a scratch directory owned by the check.")

prop("C25", "Formats are interchangeable",
 "A tree of objects, arrays, strings, integers, floating-point numbers (infinities and NaN included), booleans and null decoded from one format and re-encoded in another (any chain of JSON, MessagePack, BSON and, as a source, YAML) always denotes the same tree, including text and keys that were written with escape sequences.",
 ["inputs", "histories", "configurations"], "all trees up to a bound, all chains of formats up to length 3, all decoding modes",
 TESTS + "; one JSON-to-MessagePack conversion is printed.",
 ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go"], [("lazily escaped text and keys reaching binary encoders", "msgpackparse.go Value2MsgPack; bson_parse.go writeObjBsonValue")],
 ["all decoders and encoders"],
 "bounded-exhaustive enumeration of trees x format chains on the real codecs, final tree compared with the model",
 "The root is an object when BSON is in the chain; numbers compare numerically because JSON does not distinguish 5 from 5.0.")

prop("C26", "Loading replaces whatever the value held",
 "Loading a document into an existing value, whatever kind and content it had (also after a failed load), gives exactly the tree and kind that decoding the document as a new value gives, in every format, cached or not. A failed load reports the error and leaves an empty, fully usable value that can be loaded, set and encoded again. (Loading empty input just clears the value.)",
 ["histories", "configurations"], "all pairs and triples of (prior state, document, document) over a set of kinds and good and bad documents, in every format and mode",
 TESTS + "; one value is loaded twice, object into object.",
 ["dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go"], [("LoadFrom*", "dxvalue.go"), ("parse-into functions", "parseJson2Value, parseMsgPack2Value, parseBsonDocument")],
 ["LoadFromJson", "LoadFromMsgPack", "LoadFromBson", "LoadFromYaml", "Unmarshal"],
 "explicit-state exploration of load sequences over prior states x documents, compared with fresh decoding",
 "Prior states include shared and recycled values; read-only constants are excluded (C21).")

prop("C27", "Repeated use keeps memory bounded",
 "However often a value is loaded (any format, good or bad input), cleared, or freed and decoded again with caching, with any building, copying, merging, reading, encoding and converting in between, the memory held does not grow with the number of repetitions, and each repetition of the same operations gives the same value again. (What is added to a cached value is kept until its next load, Clear or FreeValue.)",
 ["histories", "configurations"], "all cycles of operations up to a length that contain a release, repeated, on every kind of holder",
 TESTS + "; nothing is repeated and memory is never looked at.",
 ["cache.go", "dxvalue.go", "jsonparse.go", "msgpackparse.go", "bson_parse.go", "yamlparse.go"], [("giving slots back", "cache.go Reset, FreeValue; dxvalue.go Clear"), ("recycled YAML parser state", "yamlparse.go")],
 ["LoadFrom*", "Clear", "FreeValue", "NewValueFrom*", "Clone", "SetValue", "MergeWith"],
 "bounded-exhaustive enumeration of operation cycles on the real code, each repeated, with the live heap after collection as the monitored state",
 "Unbounded repetition is represented by up to 5290 repetitions; growth below 8 bytes per repetition is not seen.")
