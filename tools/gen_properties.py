#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
R = "runtime/src/zserio/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [R + f for f in files],
         "mechanism": [{"name": n, "where": R + w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": R + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Bit streams read back exactly what was written, from any bit position",
 "Any sequence of values written to a bit stream (signed and unsigned fields of every width, booleans, variable-length integers, floats, strings, byte sequences, bit buffers), interleaved with alignments and position changes, is read back identically by a reader over the written bits. Reader and writer positions advance by exactly the same number of bits at each step, repositioning a reader to any earlier or later position yields the same values as reading there sequentially, and a reader constructed over any of its accepted input kinds behaves the same.",
 ["inputs","histories"], "all operation sequences, start bit offsets, widths 0..64, values, buffer kinds and seeks",
 "Unit tests write a few fixed sequences; the reader's 64/32-bit cache refill depends on the start position, remaining bytes and preceding history, which tests sample at a handful of points.",
 ["BitStreamReader.cpp","BitStreamReader.h","BitStreamWriter.cpp","BitStreamWriter.h"],
 [("cached bit reading","BitStreamReader.cpp"),("bit writing","BitStreamWriter.cpp"),("alignment","BitStreamReader.cpp")],
 ["reader return values","bit positions"])
prop("P02", "The wire format is exactly the zserio encoding",
 "Every value is encoded with exactly the bits the zserio format prescribes: most significant bit first, two's complement fields, the shortest variable-length integer form with its continuation and sign bits, IEEE floats, and length-prefixed strings, byte sequences and bit buffers. Conversely every encoding that the format permits decodes to the value it denotes, and a length prefix denoting a value outside the permitted range is rejected instead of being truncated.",
 ["inputs"], "all values of each wire type, all (also non-minimal) variable-length encodings, at all bit offsets",
 "Round-trip style unit tests cannot see a symmetric change of writer and reader, and boundary tables are tested only at listed constants.",
 ["BitStreamWriter.cpp","BitStreamReader.cpp","BitStreamWriter.h","BitStreamReader.h","FloatUtil.cpp"],
 [("variable-length integer tables","BitStreamWriter.cpp"),("length prefix range check","BitStreamReader.cpp")], ["written bytes"])
prop("P03", "Writers never touch bits outside the write and reject what does not fit",
 "A write changes only the bits it is supposed to write: a fixed-size target is never written beyond its declared bit size and a write that does not fit raises an error, leaving every bit outside the declared range unchanged, including the remaining bits of the last byte. Values that cannot be represented in the requested width or variable-length form, and invalid widths, are rejected with an error and without modifying the buffer.",
 ["inputs","histories"], "all buffer sizes in bits, positions, widths, values and sequences of successful and failing writes",
 "Tests use a few byte-aligned capacities and check single failing writes; corruption next to the write or partial writes in the last byte are invisible to them.",
 ["BitStreamWriter.cpp","BitStreamWriter.h"],
 [("capacity check","BitStreamWriter.cpp"),("range check","BitStreamWriter.cpp")], ["buffer content","exceptions"])
prop("P04", "Reading arbitrary bytes is memory safe and ends in a value or a library error",
 "For any byte sequence and declared bit size, every read entry point (primitive values, arrays of each kind, whole objects of a schema type) either returns a value consumed entirely from inside the declared bits or raises a library exception; it never reads outside the buffer, hangs, or has undefined behaviour. However large the lengths claimed by the input are, memory is only allocated in proportion to the elements actually decoded plus the configured array preallocation, hence to the input size (except for packed elements, which the format allows to take no bits).",
 ["inputs","fault_sequences"], "all byte strings (random, mutated and truncated valid encodings) and all read operation sequences over them",
 "Tests read well-formed data plus a few truncations; hostile lengths, truncation at every bit and stale cache states are unbounded.",
 ["BitStreamReader.cpp","BitStreamReader.h","ArrayView.h","SerializeUtil.h","DeltaContext.h","Enums.h","Bitmasks.h"],
 [("end-of-stream checks","BitStreamReader.cpp"),("bounded preallocation","ArrayView.h")], ["ASan/UBSan reports","peak allocation","exceptions"])
prop("P05", "Predicted bit size always equals the number of bits written",
 "For every value, array (plain, aligned, implicit, packed) and object, and every starting bit position, the size computed up front equals the number of bits that writing it there advances the stream by. The serialized buffer of an object therefore is exactly the size predicted.",
 ["inputs","configurations"], "all wire types, values, array kinds, schema objects and start positions",
 "Tests compare sizes at position 0 or 1 for fixed examples; sizes depend on position (alignment), deltas and value magnitudes.",
 ["BitSize.h","BitPositionUtil.h","ArrayView.h","DeltaContext.h","SerializeUtil.h"],
 [("size prediction","BitSize.h"),("packing size","DeltaContext.h"),("alignment arithmetic","BitPositionUtil.h")], ["bit positions"])
prop("P06", "Numeric schema types accept exactly their range of values",
 "Each integral schema type (fixed and dynamic bit fields, variable-length integers, sizes) validates exactly the values representable in it and rejects all others with an out-of-range error when validated or constructed with checking; booleans and floats accept every native value. Conversions between a wrapper and its native value, arithmetic assignment, comparison and hashing behave like the native number, and what is accepted by validation can be written and what is rejected cannot be.",
 ["inputs"], "all widths, all native values incl. type limits, and all dynamic lengths",
 "Tests check hand-picked bounds of a few widths; an off-by-one in one width or sign survives.",
 ["Types.h","Types.cpp","View.h","BitFieldUtil.cpp"],
 [("range check","Types.h"),("dynamic range check","Types.h"),("bit-field bounds","BitFieldUtil.cpp")], ["exceptions"])
prop("P07", "Float conversions are IEEE-exact and order preserving",
 "Widening a 16-bit float is exact for all encodings (zeros, subnormals, infinities, NaN), and narrowing a single-precision float yields the nearest half-precision value (a value exactly half way between two neighbours goes to the one of larger magnitude, except that 2^-25 and everything below become zero), infinity on overflow and NaN exactly for NaN, keeping the sign. Single and double conversions to and from their bit patterns are the identity.",
 ["inputs"], "all 2^16 half encodings, all 2^32 single encodings (sampled with boundary bias; whole range at thorough tier), all doubles",
 "Tests convert a few dozen constants; rounding carries, overflow and subnormal boundaries are single points among 2^32.",
 ["FloatUtil.cpp","FloatUtil.h"], [("half conversion","FloatUtil.cpp")], ["return values"])
prop("P08", "Bit buffers are values: only the declared bits matter",
 "A bit buffer behaves as the sequence of its declared bits: equality, ordering, hash and serialization depend only on those bits and never on padding bits of the last byte, ordering is a strict total order consistent with equality, and equal buffers hash equally. Construction, copying, moving and allocator-aware variants preserve content for every kind of source and bit size, and bit counts inconsistent with the supplied storage are rejected.",
 ["inputs"], "all bit sizes (incl. 0 and non multiples of 8), contents, padding bits, construction and assignment paths",
 "Tests compare a few buffers with fixed padding; ordering laws are universally quantified over pairs and triples.",
 ["BitBuffer.h","HashCodeUtil.h"], [("masked comparison","BitBuffer.h"),("masked hash","BitBuffer.h")], ["operators","hash"])
prop("P09", "Arrays of every kind round trip and views expose the underlying sequence",
 "Writing a plain, auto-length, implicit-length or aligned array of any element type and reading it back at any bit offset yields the same elements, consumes the same bits and produces the element-by-element encoding with the prescribed length prefix and alignment padding. Array views and spans present the underlying elements in order (size, indexing, iterator arithmetic and comparisons, front/back, sub-ranges), and validation of an array accepts exactly valid elements and the expected length.",
 ["inputs","configurations"], "all element types, array kinds, lengths, values, parameters and offsets",
 "Tests instantiate each combination with one or two short arrays.",
 ["ArrayView.h","ArrayTraits.h","Span.h","BitSize.h"],
 [("array write/read","ArrayView.h"),("array traits","ArrayTraits.h"),("iterators","ArrayView.h")], ["bytes","elements"])
prop("P10", "Packed arrays are lossless and use the prescribed delta encoding",
 "Packed arrays of every packable element type (integers of all widths and signs, enums, bitmasks, nested objects) read back exactly what was written for any element values including extremes and overflowing differences. The produced bits are exactly those prescribed: packing descriptor, first value, equal-width deltas, falling back to unpacked encoding whenever the deltas need more than the permitted width or packing would not make the result smaller.",
 ["inputs"], "all element types, lengths (0,1,2,..), and value sequences incl. extremes, constant runs and random walks",
 "Tests use a handful of sequences; overflow in delta computation and the packed/unpacked decision threshold depend on exact values.",
 ["DeltaContext.h","ArrayView.h","Enums.h","Bitmasks.h"],
 [("delta context","DeltaContext.h"),("packed array","ArrayView.h")], ["bytes","elements"])
prop("P11", "Offsets and alignments are consistent between layout, writing and reading",
 "When a schema uses alignment or offset fields, initializing offsets stores for each target exactly the byte position at which it will be written, and writing then succeeds with each target at that position and at the required alignment, for any start position, optional presence and array length. Alignment to any multiple (power of two or not) moves reader, writer and size prediction to the same position, and never backwards or further than necessary.",
 ["inputs","configurations"], "all start bit positions, alignments, array lengths, and variable-size content before, between and after the targets",
 "Tests exercise one structure with one offset and byte alignments at fixed positions.",
 ["ArrayView.h","BitPositionUtil.h","SerializeUtil.h","BitStreamWriter.cpp","BitStreamReader.cpp"],
 [("offset initialization","ArrayView.h"),("alignment","BitPositionUtil.h"),("buffer preparation","SerializeUtil.h")], ["bytes","exceptions"])
prop("P12", "Objects survive serialization for every schema construct and allocator flavour",
 "Serializing any valid object (structures with parameters, optionals, choices, unions, enums, bitmasks, externs, bytes, packed and indexed arrays, extended fields) and deserializing it with the same parameters yields an equal object, whatever allocator flavour or target buffer type is used, and serializing that again yields identical bits. An object violating its schema (missing or unexpected optional, wrong array length, unselected case, mismatched parameter, out of range field) is rejected by validation and by serialization.",
 ["inputs","configurations"], "all object values of the schema types, allocator flavours, buffer kinds and single-defect mutations",
 "Tests serialize one or two instances per type.",
 ["SerializeUtil.h","View.h","DataView.h","Extended.h","Optional.h","ChoiceTag.h","Traits.h","IService.h"],
 [("serialize/deserialize","SerializeUtil.h"),("validation","View.h"),("extended fields","Extended.h")], ["bytes","objects","exceptions"])
prop("P13", "Comparison and hashing obey their laws for data, views and containers",
 "For all data objects, views, arrays, optionals, variants, byte sequences, strings and extended fields, equality is an equivalence, ordering is a strict total order consistent with equality, and the six relational operators agree with each other. Equal values have equal hash codes, the hash depends on the values only (also the same across allocator flavours, and for a string, byte sequence, bit buffer or array and a view of it), and changing any single field, element or case makes values unequal.",
 ["inputs"], "all pairs and triples of values, incl. near-equal pairs differing in one field, case or length",
 "Tests compare a few constructed pairs; laws quantify over all pairs/triples.",
 ["HashCodeUtil.h","Optional.h","Variant.h","Extended.h","ArrayView.h","Bytes.h","String.h","Vector.h","View.h","DataView.h","BuiltInOperators.cpp"],
 [("hash functions","HashCodeUtil.h"),("generic comparison","BuiltInOperators.cpp")], ["operators","hash"])
prop("P14", "Optional behaves like a reference optional under any operation history",
 "Under any sequence of constructions, assignments, emplacements, resets, swaps, moves and copies, with inline or heap-allocated storage and with any allocator combination, an optional has the same presence and value as the standard optional. Access to an absent value raises the documented error, every constructed value is destroyed exactly once, and an exception thrown by a value or allocation leaves the optional valid and leaks nothing.",
 ["histories","fault_sequences","configurations"], "all operation histories over several optionals, allocator kinds and throw points",
 "Tests run one short scenario per operation; interplay of storage kinds, allocators and throws is combinatorial.",
 ["Optional.h","Optional.cpp","AllocatorHolder.h"], [("storage","Optional.h"),("allocator propagation","AllocatorHolder.h")], ["values","live-object counts"])
prop("P15", "The type-erased holder behaves like a reference any under any history",
 "Under any history of storing, copying, moving, swapping, resetting and typed access, with small and large value types and any allocator combination, the type-erased holder holds exactly the last stored value and reports its presence and type correctly. Access with a wrong type or to an empty holder raises an error without changing the content, values are destroyed exactly once, and exceptions thrown while storing or copying leave every holder valid and leak nothing.",
 ["histories","fault_sequences","configurations"], "all operation histories, value types on both sides of the inline threshold, allocator kinds and throw points",
 "Tests run fixed scenarios per type size.",
 ["Any.h","AllocatorHolder.h","Traits.h"], [("inline and heap holders","Any.h")], ["values","live-object counts"])
prop("P16", "Variant behaves like a reference variant under any operation history",
 "Under any history of emplacing, assigning, copying, moving, swapping and visiting, with alternatives stored inline or on the heap and any allocator combination, a variant has the same active index and value as the standard variant. Access to an inactive alternative raises the documented error, values are destroyed exactly once, and an exception thrown by an alternative leaves the variant either holding a live value or reporting that it is valueless, and leaks nothing.",
 ["histories","fault_sequences","configurations"], "all operation histories over several variants, alternative kinds, allocators and throw points",
 "Tests run one scenario per operation.",
 ["Variant.h","Variant.cpp","AllocatorHolder.h"], [("storage and destruction","Variant.h")], ["values","live-object counts"])
prop("P17", "All memory comes from and returns to the supplied allocator",
 "When an allocator or memory resource is supplied to an object, container, reader or serialization call, every allocation made for the result is taken from it and returned to it with the matching size, alignment and resource; nothing leaks and nothing of the result is taken from the default resource. This holds for any history of copies, moves and assignments between objects with different allocators, and when an allocation fails at any point.",
 ["histories","fault_sequences","configurations"], "all object values and histories, allocator flavours, and failure of the n-th allocation for every n",
 "Tests count allocations in fixed scenarios; failing allocations at every point and mixed allocators are not sampled.",
 ["AllocatorHolder.h","RebindAlloc.h","UniquePtr.h","Optional.h","Variant.h","Any.h","ArrayView.h","SerializeUtil.h","ppmr/PropagatingPolymorphicAllocator.h"],
 [("allocator propagation","AllocatorHolder.h"),("allocating pointer","UniquePtr.h"),("polymorphic allocator","ppmr/PropagatingPolymorphicAllocator.h")], ["tracking resource log"])
prop("P18", "JSON text is encoded, tokenized and parsed faithfully for any content",
 "Encoding any string, integer or floating-point value to JSON and decoding it yields the same value, and encoded text is valid JSON with control and special characters escaped. Tokenizing and parsing give the same events, values and source positions regardless of how the text falls on internal input-chunk boundaries and of whitespace, accept all documents of the supported grammar, and reject malformed text with an error instead of accepting, losing or inventing content.",
 ["inputs"], "all values, documents, whitespace layouts, chunk boundary positions and malformed mutations",
 "Tests parse small documents far below the chunk size and a few malformed samples.",
 ["JsonEncoder.cpp","JsonDecoder.h","JsonTokenizer.cpp","JsonTokenizer.h","JsonParser.h"],
 [("escaping","JsonEncoder.cpp"),("literal decoding","JsonDecoder.h"),("chunked tokenizer","JsonTokenizer.h"),("grammar","JsonParser.h")], ["tokens","events"])
prop("P19", "Objects exported to JSON import back unchanged",
 "For every valid object of a schema type, exporting it as JSON (any indentation, array output, walk filters that keep everything, stream, file or string) produces well-formed JSON carrying every present field, and importing that text yields an equal object. Numeric fields, optional absence, enums and bitmasks (by name or number), binary fields and nested arrays keep their exact values, and importing JSON that does not fit the schema raises an error.",
 ["inputs","configurations"], "all object values, formatting options, key orders and single-defect documents",
 "Tests export one object per type and compare to a literal string.",
 ["JsonWriter.h","JsonReader.h","DebugStringUtil.h","JsonEncoder.cpp","ZserioTreeCreator.cpp"],
 [("writer","JsonWriter.h"),("reader","JsonReader.h")], ["JSON text","objects"])
prop("P20", "Building an object tree step by step yields exactly the described object",
 "Driving the tree builder with any valid sequence of begin/end/set/add steps for a schema type creates exactly the described object, for every field, nested compound, array and type conversion that preserves the value. Any step not allowed in the current state, any unknown field, wrong kind of value, or number that does not fit the field's integer type raises an error and does not corrupt the tree.",
 ["histories","inputs"], "all valid build sequences and all single illegal steps at every state",
 "Tests build one object and check a few illegal steps.",
 ["ZserioTreeCreator.cpp","ZserioTreeCreator.h","ReflectableData.h"],
 [("builder state machine","ZserioTreeCreator.cpp"),("typed conversion","ZserioTreeCreator.h")], ["created object","exceptions"])
prop("P21", "Tree walking visits exactly what the filter admits, in schema order",
 "Walking any object reports each compound, array and value exactly once in depth-first schema order with properly nested begin and end notifications, correct element indices and the actual values, skipping absent parts according to the rules. Depth, path, array-length and combined filters admit exactly the nodes their rule describes, and filtering never changes the order or pairing of notifications.",
 ["inputs","configurations"], "all objects, filters and filter combinations",
 "Tests walk one object with a few filters.",
 ["Walker.h","IWalkFilter.h","IWalkObserver.h","WalkerConst.h"],
 [("walker","Walker.h"),("default, depth, path, array length, and-filter","Walker.h")], ["observer events"])
prop("P22", "Reflection reads and writes the same object the typed API sees",
 "For any object, values obtained through reflection (getters, path lookup, conversions to integer, floating point and string, array access, selected choice, function calls and parameters) equal those of the typed interface, and setting, creating, resizing or appending through reflection changes the typed object accordingly. A conversion is offered only if it is meaningful and preserves the value, and unsupported or out-of-range operations raise an error without modification.",
 ["inputs","histories"], "all objects, paths, accessors and mutation sequences",
 "Tests call each accessor on one sample object.",
 ["ReflectableData.h","ReflectableUtil.h","IReflectableData.h"],
 [("reflectable implementations","ReflectableData.h"),("deep comparison","ReflectableUtil.h")], ["reflected and typed values"])
prop("P23", "Introspection views mirror the typed view read-only",
 "For any object view, every introspected field, parameter, function result, selected choice, array element, path lookup and conversion equals what the typed view returns, and the introspection of equal views yields equal content. Operations not applicable to a kind of value raise an error, and deep comparison holds exactly for equal content.",
 ["inputs"], "all objects, parameters, paths and accessors",
 "Tests call each accessor on one sample view.",
 ["IntrospectableView.h","IIntrospectableView.h","IntrospectableDataBase.h","ReflectableUtil.h"],
 [("introspectable implementations","IntrospectableView.h")], ["introspected and typed values"])
prop("P24", "Enum, bitmask and type metadata agree with behaviour",
 "Enum conversions between value, name, ordinal and item are mutually inverse on defined items and raise an error on everything else; bitmask set operations form the expected algebra, textual forms parse back to the same value, and only declared bits are valid. Runtime type information of every type reports the kind, size, fields, items and properties that actually govern how values of the type are serialized, validated and created.",
 ["inputs","configurations"], "all enum items and non-items, all bitmask values and texts, all types of a schema",
 "Tests check a few items and one malformed text.",
 ["Enums.h","Bitmasks.h","TypeInfo.h","TypeInfoUtil.cpp","TypeInfoUtil.h","ITypeInfo.h"],
 [("enum traits","Enums.h"),("type info","TypeInfo.h"),("type classification","TypeInfoUtil.cpp")], ["return values","exceptions"])
prop("P25", "Numeric helpers, string conversion and error messages are exact",
 "Helper computations (bits needed for a count, bit-field bounds, byte and bit position conversion, alignment, size narrowing) return the mathematically exact result or raise an error for every argument. Integers and floats converted to text show their exact value (floats to the documented precision, with sign), and exception texts built by streaming any sequence of values contain exactly their concatenation, safely truncated at the documented capacity.",
 ["inputs"], "all argument values incl. type limits, all message lengths",
 "Tests cover sampled constants; limits, truncation points and fraction padding are unbounded.",
 ["BitFieldUtil.cpp","BitPositionUtil.h","SizeConvertUtil.cpp","StringConvertUtil.h","CppRuntimeException.cpp","CppRuntimeException.h","BuiltInOperators.cpp"],
 [("bit-field bounds","BitFieldUtil.cpp"),("size conversion","SizeConvertUtil.cpp"),("text conversion","StringConvertUtil.h"),("message building","CppRuntimeException.cpp")], ["return values"])
prop("P26", "Values bound to SQLite columns read back unchanged; connections behave",
 "Any value of a supported type bound to a statement and stored reads back identical (integers of all widths, floats, booleans, text with any characters, blobs holding serialized objects), and SQL NULL corresponds exactly to an absent value. Transactions nest and commit as documented, failed statements raise an error carrying the database message, statements and owned connections are always released exactly once, and schema validation reports exactly the declared columns.",
 ["inputs","histories","fault_sequences"], "all values and types, transaction histories and failing statements",
 "Tests bind a few constants per type.",
 ["SqliteUtil.h","SqliteConnection.h","SqliteFinalizer.h","SqliteException.cpp","ValidationSqliteUtil.h"],
 [("column binding","SqliteUtil.h"),("transactions and ownership","SqliteConnection.h"),("schema query","ValidationSqliteUtil.h")], ["column values","connection state"])
prop("P27", "Files hold exactly the serialized bits and I/O failures are reported",
 "Writing a buffer or object to a file and reading it back yields the same content for every bit size, the file being exactly the serialized bytes and replacing any previous content, for any file name passed as a string view. Whenever the data cannot be completely stored or read (missing, directory, unwritable, full device, truncated content), an error is raised instead of reporting success or returning partial data.",
 ["inputs","fault_sequences"], "all contents, bit sizes, file names and I/O failure kinds",
 "Tests write one small file and try one missing directory; late write failures only surface on flush.",
 ["FileUtil.cpp","FileUtil.h","SerializeUtil.h","DebugStringUtil.h"],
 [("file write/read","FileUtil.cpp")], ["file content","exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
