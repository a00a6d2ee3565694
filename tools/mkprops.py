#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (only properties with steps in checks.py are claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS

P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))

prop("C01", "Exactly the RFC 8259 texts are accepted",
 "A byte string is accepted by the validity test, by skipping, by raw capture and by decoding into an untyped destination if and only if it is one JSON text of RFC 8259 (with white space around it). The verdict is the same for all of these operations, whether the text stands alone or is nested in another one.",
 ["inputs"], "all byte strings, at every nesting, for every accepting operation",
 "Tests sample a few hundred literals; the language is infinite and every byte in every syntactic position matters.",
 ["iterator_skip.go", "iterator_skip_object.go", "iterator_skip_array.go", "iterator_skip_number.go", "iterator_skip_str.go", "iterator_read.go", "iterator_str.go", "iterator.go", "value_type.go"],
 [("token dispatch tables", "iterator_skip.go, iterator_read.go, value_type.go"), ("explicit nesting stack", "stack.go, node.go")],
 "TLA+ push-down machine model-checked against the RFC grammar; its TLC-exported table drives W-method conformance tests",
 "Machine = grammar = parser is exhaustive up to text length 4/5 over a 16-letter alphabet; conformance covers every machine transition up to nesting depth 3/4 with every byte value, and all small edits of random documents.")
prop("C02", "A text which is not JSON is never accepted, whatever the destination",
 "Decoding a byte string which is not a JSON text into a destination of any type, with any configuration and through any entry point (byte slice, string, reader, iterator, stream decoder), returns an error. It never succeeds, panics, crashes or hangs.",
 ["inputs", "configurations"], "all byte strings, destination types, configurations and entry points",
 "Every typed decoder has its own scanning code; tests check a handful of malformed texts per type.",
 ["val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go", "val_decoder_native_map.go", "val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_int.go", "iterator_float.go", "iterator_str.go"],
 [("per-type decoders", "val_decoder_*.go"), ("end of data check", "iterator.go")],
 "TLA+ push-down machine (TLC-exported table) as oracle over edited typed documents",
 "Every truncation, deletion and class-representative replacement/insertion at every position of random typed documents; every machine transition into a fixed set of types.")
prop("C03", "How a reader delivers the text does not matter",
 "Decoding, skipping or capturing a text from a reader gives the same outcome and the same value as from a byte slice holding the whole text, however the reader cuts the text into pieces. This includes single bytes, empty reads, pieces larger than internal buffers, and an end of file delivered together with the last piece.",
 ["inputs", "schedules"], "all texts and all ways of cutting them",
 "Refilling can happen inside any token; tests use one-byte readers on a few texts.",
 ["iterator.go", "iterator_str.go", "iterator_float.go", "iterator_int.go", "iterator_number.go", "iterator_raw.go"],
 [("refill and capture", "iterator.go readMore"), ("token code resuming after a refill", "iterator_*.go")],
 "TLA+ buffer/refill model checked over all delivery schedules; recorded decodes under all one- and two-cut deliveries judged by TLC",
 "The refill model is exhaustive for short streams; conformance tries every single cut position and random schedules for random typed documents, including tokens longer than the internal buffers.")
prop("C04", "A failing reader is reported, never taken for the end of the text",
 "If the reader fails with an error other than end of file before the value (and, where the whole text is asked for, its end) has been seen, the operation returns that error. It never returns success, a truncated value or an end of file instead, at whatever byte the failure happens.",
 ["fault_sequences", "inputs"], "all texts, all failure positions, with or without data delivered together with the error",
 "Tests inject a failure at a few positions only.",
 ["iterator.go", "iterator_int.go", "iterator_float.go", "iterator_skip_number.go", "iterator_str.go", "decoder.go"],
 [("error propagation from refills", "iterator.go readMore and its callers")],
 "TLA+ prefix semantics (TLC-exported machine) decides the allowed outcome for every failure position",
 "Every failure position of random documents, several destinations and entry points.")
prop("C05", "Untyped decoding denotes exactly the JSON value",
 "Decoding into an empty untyped interface yields precisely the value of the text: nil, bool, float64 (or the unchanged number text when so configured), string, slice, or map where the last of duplicate keys wins. Numbers out of range of a float64 are errors; nothing is lost, reordered or merged.",
 ["inputs", "configurations"], "all JSON texts",
 "Tests compare a few documents with the standard library.",
 ["iterator_read.go", "iterator_read_array.go", "iterator_read_object.go", "node.go", "stack.go", "val_decoder_native_interface.go"],
 [("explicit stacks for nested values", "node.go, stack.go, iterator_read.go")],
 "TLA+ denotational specification; recorded decodes judged by TLC",
 "Random documents, nesting to depth 6, all entry points.")
prop("C06", "String literals decode to exactly the text they denote",
 "Every string literal decodes to the bytes it denotes: escapes, four-digit unicode escapes, surrogate pairs combined, lone surrogates replaced by U+FFFD, all other bytes unchanged. This holds at any length and position, as a value, an object key, or appended to a caller's buffer, and raw control characters and bad escapes are errors.",
 ["inputs"], "all string literals, all lengths, all ways of reading them",
 "Escapes next to each other, at buffer boundaries, and surrogate sequences form an unbounded product.",
 ["iterator_str.go", "iterator_object.go", "convert.go"],
 [("string readers", "iterator_str.go")],
 "TLA+ string semantics; recorded reads judged by TLC",
 "All escapes and sequences of up to two unicode escapes from the surrogate boundaries, random literals of any length.")
prop("C07", "Integers decode exactly or not at all",
 "Decoding a number into an integer destination of any width and signedness yields exactly the number written, or an error when the text is not an integer or out of range. It never wraps, saturates, truncates a fraction, or consumes only part of a number; this also holds for quoted integers and for integer map keys.",
 ["inputs"], "all number texts and all integer types",
 "Overflow boundaries differ for every width and sign and are hit by few of the texts.",
 ["iterator_int.go", "iterator_int8.go", "iterator_int16.go", "iterator_int32.go", "iterator_int64.go", "val_decoder_native_int.go", "val_decoder_native_uint.go", "val_decoder_native_map.go"],
 [("per-width digit loops with overflow tests", "iterator_int*.go")],
 "TLA+ decimal-text arithmetic; recorded reads judged by TLC",
 "All integer texts of up to 3 digits (4 thorough), all one- and two-digit perturbations of the limits of every width.")
prop("C08", "Typed decoding composes",
 "Decoding a JSON text into a destination built from any combination of scalars, pointers, slices, arrays, maps, structs, interfaces and custom types gives exactly the value prescribed for that type, also when the destination already holds values. Members not in the text keep what they held, null resets or keeps according to the type, slices and map values are built afresh, and a value of the wrong JSON type is an error.",
 ["inputs", "programs", "configurations"], "all destination types, prior contents and texts",
 "Types, prior values and texts multiply; tests fix all three.",
 ["val_decoder_native_ptr.go", "val_decoder_native_slice.go", "val_decoder_native_array.go", "val_decoder_native_map.go", "val_decoder_native_struct.go", "val_decoder_native_interface.go", "val_decoder_native.go"],
 [("composed decoders", "decoder_config.go, val_decoder_native_*.go")],
 "TLA+ typed-decoding semantics; recorded decodes into random types judged by TLC",
 "Random types (nesting 3), documents and prior contents.")
prop("C09", "The members of a struct are those of the embedding rules, both ways",
 "Encoding and decoding see the same members of a struct: exported fields, with names from tags (of the configured key), and the fields promoted from embedded structs by the depth and tag rules of encoding/json, conflicts hiding each other. Encoding writes them in declaration order; decoding finds each of them, allocating embedded pointers as needed.",
 ["programs"], "all struct types with embedding, tags and name conflicts",
 "The rules interact over arbitrary embedding graphs; tests have a few.",
 ["struct.go", "struct_field.go", "struct_tag.go", "val_encoder_native_struct.go", "val_decoder_native_struct.go"],
 [("breadth-first field collection and dominance", "struct.go")],
 "TLA+ visibility rules (breadth-first model checked against the declarative rule); generated struct families judged by TLC",
 "All small embedding graphs in the model; hundreds of generated struct types against the code.")
prop("C10", "A key selects the field it names",
 "An object key selects the field of exactly that name, else (unless case sensitive) a field whose name is equal under unicode case folding; with several candidates an exact match wins, else the first declared. A key which selects no field is skipped, or is an error when unknown fields are disallowed, independent of the number of fields of the struct.",
 ["inputs", "programs", "configurations"], "all field name sets, keys, and the case and unknown-field settings",
 "Three decoders are chosen by the number of fields and several folding routines by the letters of the name.",
 ["struct_field.go", "struct_field_fold.go", "struct_field_upper.go", "val_decoder_native_struct.go", "val_decoder_native_struct_small.go", "val_decoder_native_struct_one_field.go"],
 [("exact lookup then folding comparison", "struct_field.go, struct_field_fold.go")],
 "TLA+ key selection rule with simple case folding; recorded decodes judged by TLC",
 "Random name sets with many folding collisions, 1 to 14 fields, keys in random case with escapes.")
prop("C11", "Skipping and capturing cover exactly one value",
 "Skipping or capturing a value consumes exactly that value and leaves the position directly after it; a captured text is byte for byte the text of the value without surrounding white space. This holds for every value at every nesting, from byte slices and from readers, and for raw messages inside typed destinations.",
 ["inputs", "schedules"], "all values, positions and deliveries",
 "Capture interacts with refills anywhere in the value.",
 ["iterator_skip.go", "iterator_raw.go", "iterator.go", "val_decoder_json_rawmessage.go", "val_decoder_json_unmarshaler.go"],
 [("capture mode", "iterator.go, iterator_raw.go")],
 "TLA+ extents of values; recorded skip/capture sessions judged by TLC",
 "Random documents with several capture operations in sequence under random deliveries.")
prop("C12", "Every reading step returns the token at hand or an error",
 "Each step of the iterator (typed reads, null, begin and more of arrays and objects, skips, peeking the type) returns exactly what stands at the current position and moves directly behind it, or fails if something else stands there. A sequence of steps therefore visits a document exactly in order, and never reads one kind of value as another.",
 ["inputs", "histories"], "all documents and sequences of steps",
 "Sequences of steps multiply with documents.",
 ["iterator_array.go", "iterator_object.go", "iterator_bool.go", "iterator_null.go", "iterator_number.go", "iterator_str.go", "iterator_int.go", "iterator_float.go", "value_type.go"],
 [("step functions", "iterator_*.go")],
 "TLA+ step semantics; recorded step sequences validated by TLC",
 "Random walks of guided and unguided steps over random documents and deliveries.")
prop("C13", "A stream decoder yields the values of the stream in order",
 "A stream decoder returns the values of a stream one after the other, each exactly once, then end of file; it reports whether more follow (asking changes nothing, also at the present end of a growing stream), and its offset and buffered data always account for every byte received from the reader. After an error every further decode returns that error.",
 ["inputs", "histories", "schedules"], "all streams of values, deliveries and call sequences",
 "Positions depend on how deliveries cut the stream.",
 ["decoder.go", "iterator.go"],
 [("offset, head and tail bookkeeping", "iterator.go"), ("sticky error", "decoder.go")],
 "TLA+ decoder session machine; recorded sessions validated by TLC",
 "Random streams, call sequences and deliveries.")
prop("C14", "Encoding writes exactly the JSON value of the Go value",
 "Encoding any supported value yields one valid JSON text which denotes it: struct members in declaration order with names, omission of empty members and quoting as tagged, all entries of maps, all elements of arrays and slices, base64 for byte slices, null for nil. A value that cannot be encoded gives an error and no text.",
 ["inputs", "programs"], "all encodable types and values",
 "Types and values multiply; addressability and direct interface storage make special cases.",
 ["val_encoder_native_struct.go", "val_encoder_native_map.go", "val_encoder_native_slice.go", "val_encoder_native_array.go", "val_encoder_native_ptr.go", "val_encoder_native_interface.go", "is_empty.go", "encoder_config.go"],
 [("composed encoders", "encoder_config.go, val_encoder_*.go")],
 "TLA+ encoding semantics (expected value tree); recorded encodings parsed and judged by TLC",
 "Random types (nesting 3) and values, all entry points.")
prop("C15", "Encoded strings denote the string and are safe to embed",
 "Any Go string encodes to a valid literal which denotes it, bytes that are not valid UTF-8 replaced by U+FFFD, for values and for object keys. Control characters and U+2028/U+2029 are always escaped, and <, > and & are escaped exactly when HTML escaping is on.",
 ["inputs", "configurations"], "all strings, both escaping settings",
 "All byte sequences at all lengths.",
 ["streamer_str.go", "val_encoder_native_map.go", "val_encoder_text_marshaler.go"],
 [("escape tables", "streamer_str.go")],
 "TLA+ string encoding rules; recorded literals judged by TLC",
 "All one-byte and many two/three-byte strings, all runes of interest, random strings.")
prop("C16", "Encoded numbers are exact",
 "Every integer of every width encodes to its decimal text, and every finite float32 and float64 encodes to the shortest JSON number that reads back as the same value, in plain form from 1e-6 up to 1e21 and in exponent form outside. NaN and infinities are errors.",
 ["inputs"], "all integer and float values",
 "Tests sample a few numbers.",
 ["streamer_int.go", "streamer_float.go", "val_encoder_native_int.go", "val_encoder_native_uint.go", "val_encoder_native_float.go"],
 [("digit tables", "streamer_int.go"), ("exponent clean-up", "streamer_float.go")],
 "TLA+ decimal and float formatting rules; recorded encodings judged by TLC",
 "All 16-bit integers, limits and powers of ten of every width, random floats at every exponent.")
prop("C17", "Any well-formed sequence of writer calls produces the JSON it spells",
 "A sequence of writer calls that opens and closes arrays and objects properly produces exactly the JSON text it spells, with separators where they belong, values following one another at the top level separated by commas. Flushing at any moments does not change the total output. Once a value could not be written, every flush returns that error and writes nothing more.",
 ["histories"], "all well-formed call sequences and flush points",
 "Separator state depends on the whole call history.",
 ["streamer.go", "streamer_int.go", "streamer_float.go", "streamer_str.go", "streamer_val.go"],
 [("separator state", "streamer.go onVal")],
 "TLA+ writer machine model-checked (every call sequence yields valid JSON); TLC-generated and random call sequences replayed and judged",
 "All call sequences up to length 6/7 in the model; all generated ones replayed.")
prop("C18", "Faulty writers lose and duplicate nothing",
 "Whatever pieces a writer accepts or refuses, the bytes it accepted are always a prefix of the text to be written, its error is returned, and flushing again continues exactly behind the last accepted byte. A stream encoder returns the error of a failed encode from then on and writes nothing more.",
 ["fault_sequences", "histories"], "all sequences of partial writes and errors",
 "Tests have one failing writer.",
 ["streamer.go", "encoder.go"],
 [("remainder kept on short writes", "streamer.go Flush"), ("sticky error", "encoder.go")],
 "TLA+ flush machine model-checked over all fault schedules; TLC-generated schedules replayed against the code",
 "All schedules of up to 4 writes of small outputs in the model; generated and random schedules replayed.")
prop("C19", "Floats decode to the nearest value, number texts are kept",
 "Decoding a number into a float32 or float64 destination, an untyped one, or by the float reads of the iterator yields the float nearest to the number written (ties to even, sign of zero kept), or an error when it is too large; a number kept as text is kept byte for byte. Texts which are not JSON numbers are errors, also inside quotes where numbers are quoted.",
 ["inputs"], "all number texts",
 "Rounding is decided by any digit of a text; tests sample a few numbers.",
 ["iterator_float.go", "iterator_float32.go", "iterator_float64.go", "iterator_number.go", "iterator_read.go", "val_decoder_native_float.go", "val_decoder_json_number.go", "number.go"],
 [("accumulated digits", "iterator_float64.go"), ("float32 not rounded twice", "iterator_float32.go")],
 "TLA+ comparison of exact decimals (FloatText.tla, itself model checked against rational order and the grammar); recorded reads judged by TLC against the rounding interval of the result",
 "Texts at, just above and just below midpoints of floats of all magnitudes, limits, subnormals, invalid forms; up to 780 digits.")
prop("C20", "Encoding then decoding gives the value back",
 "For any value of a round-trippable type, decoding its encoding into a fresh destination of the same type yields an equal value (invalid UTF-8 replaced). Decoding into an untyped destination and encoding again preserves the JSON value.",
 ["inputs", "programs"], "all round-trippable types and values, and all JSON texts",
 "Encoder and decoder are separate code and agree only by construction.",
 ["encoder_config.go", "decoder_config.go", "val_encoder_native_struct.go", "val_decoder_native_struct.go"],
 [("matching codecs", "val_encoder_*.go, val_decoder_*.go")],
 "TLA+ composition of encoding and decoding semantics; recorded round trips judged by TLC",
 "Random types and values.")
prop("C21", "Concurrent first use is as good as sequential use",
 "Any number of goroutines may encode and decode with the same configuration at the same time, including types never used before and mutually recursive types. Each gets the result it would get alone, and there is no data race.",
 ["schedules", "programs"], "all interleavings of first uses",
 "Tests are sequential.",
 ["decoder_config.go", "encoder_config.go", "iterator_pool.go", "streamer_pool.go"],
 [("copy-on-write caches behind a mutex", "decoder_config.go createDecoder, encoder_config.go createEncoder")],
 "TLA+ cache protocol model-checked over all interleavings; race-detected stress of real first uses judged by TLC",
 "All interleavings of 3 threads and 3 types in the model; stress with fresh configurations under the race detector.")
prop("C22", "Earlier operations never influence later ones",
 "The result of an operation depends on its inputs and configuration only, not on what was done before with the same configuration or with pooled iterators and streamers, including operations which failed, were abandoned half way, changed runtime settings, or panicked in user code. The same operation repeated gives the same result, and what the message of an error shows of a text is a part of the text at hand, never of an earlier one.",
 ["histories"], "all histories of operations",
 "Pools hand out objects with a past; tests hardly reuse them.",
 ["iterator_pool.go", "streamer_pool.go", "iterator.go", "streamer.go", "decoder_config_adaptor.go", "encoder_config_adaptor.go", "stack.go", "node.go"],
 [("reset on return and settings on borrow", "iterator.go reset, streamer.go reset, *_adaptor.go")],
 "TLA+ pool model (leftover state is harmless in every history); recorded histories judged by TLC operation by operation",
 "All histories up to length 5 in the model; random histories of 40 operations on one processor.")
prop("C23", "Results do not share memory with inputs, buffers or each other",
 "Decoding never modifies its input, and a decoded value, or the message of a decoding error, stays the same when the input buffer is overwritten afterwards or the library is used again. The bytes returned by encoding are not touched by later operations, and encoding does not modify the value.",
 ["histories", "inputs"], "all inputs and later operations",
 "Sharing shows only when memory is reused later.",
 ["iterator_str.go", "convert.go", "val_decoder_json_rawmessage.go", "val_decoder_native_map.go", "encoder_config.go", "iterator_raw.go"],
 [("copying of slices of the buffer", "iterator_str.go, iterator_raw.go, encoder_config.go Marshal")],
 "TLA+ value semantics; results recorded before and after overwriting and reuse, judged by TLC",
 "Random types and documents; every input byte is overwritten and pooled buffers are reused before the second look.")
prop("C24", "Custom codecs and marshalers are used wherever their type occurs",
 "A codec registered for a type, else its JSON marshaler, else its text marshaler decides how values of that type are encoded and decoded, at top level and inside pointers, slices, arrays, maps, structs and interfaces (a codec for a builtin type serves all types of its kind which have none of their own), pointer receivers included wherever the value lies behind a pointer or is an element of a slice, an array or a struct. A nil pointer to a type with a marshaler encodes as null (a registered encoder decides itself), null does not reach text unmarshalers, and the errors of a codec are returned.",
 ["programs", "inputs"], "all placements of types with all combinations of marshalers",
 "Kinds, receivers, placements and interfaces multiply.",
 ["encoder_config.go", "decoder_config.go", "val_encoder_json_marshaler.go", "val_encoder_text_marshaler.go", "val_encoder_direct.go", "val_decoder_json_unmarshaler.go", "val_decoder_text_unmarshaler.go"],
 [("dispatch order", "encoder_config.go createEncoderInternal, decoder_config.go createDecoderInternal")],
 "TLA+ dispatch rules; recorded codings of all kinds x receivers x placements judged by TLC",
 "The product of kinds, receiver sets, registries and placements is enumerated.")
prop("C25", "Decoding terminates on any input and any cyclic destination",
 "Decoding always terminates: nested texts of any depth do not exhaust the stack in skipping, validation or untyped decoding, and interface values which point to themselves, directly or through others, give an error instead of looping. Chains of interfaces without a cycle decode into their end.",
 ["inputs", "programs"], "all nesting depths and all pointer graphs",
 "Tests have a few small loops.",
 ["val_decoder_native_interface.go", "iterator_skip.go", "iterator_read.go", "stack.go"],
 [("cycle detection", "val_decoder_native_interface.go"), ("explicit stacks", "stack.go, node.go")],
 "TLA+ cycle-detection algorithm model-checked on all functional graphs; TLC-enumerated graphs replayed against the code",
 "All functional graphs of up to 6/7 nodes; nesting up to a million levels.")
prop("C26", "Garbage collection timing does not matter",
 "Results are correct whenever the garbage collector runs during an operation. Memory still reachable through a value being decoded or encoded is never freed or overwritten.",
 ["schedules", "inputs"], "all points at which a collection can happen",
 "Collections hardly ever happen inside a test.",
 ["eface.go", "convert.go", "val_decoder_native_slice.go", "val_decoder_native_map.go", "val_decoder_native_ptr.go", "val_encoder_native_interface.go"],
 [("pointers kept as pointers", "eface.go, convert.go")],
 "TLA+ value semantics; recorded decodes with forced collections and clobbered free memory, judged by TLC",
 "A collection at every read of the reader and every callback; freed memory is overwritten.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in PROPS:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["tech"],
            "level": "model_checking", "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P:
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
for fn in set(f for p in P for f in p["files"]):
    assert os.path.exists("/repo/" + fn), fn
