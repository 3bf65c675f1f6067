import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/persistence/"
D=I+"detail/"
p("C01","Writing to text and parsing it back gives back the same object",
 "For every object of a readable type, the text produced by writing the object directly to a string is accepted by parsing that string directly into the same type, and the parsed object equals the original: every fundamental value, string, enumeration, byte sequence, date, pair, tuple, container, dictionary, optional member, pointee, and class (including derived classes) at every size and nesting the types can express. Empty optional members stay empty, element order and dictionary keys are preserved, and pointers come back pointing at equal objects.",
 ["inputs","programs"],"All values of all compositions of supported types (bounded: ~100 types including classes of 1..24 members, container lengths 0..300, nesting 1..30, full 8/16-bit domains, edge ladders for wider numbers).",
 "Tests compare a few dozen hand-written literals; composition (container of enumeration, class in map in vector, length >= 10/100, derived classes, many members) is unbounded.",
 [I+"write.hpp",I+"parse.hpp",I+"write_object.hpp",I+"parse_object.hpp",I+"parse_vector.hpp",I+"parse_set.hpp",I+"parse_array.hpp",I+"parse_map.hpp",I+"parse_enum.hpp",I+"parse_pointer.hpp"],
 [("one writer and one parser specialization per type","write_*.hpp / parse_*.hpp"),("handler stack driven by SAX events","detail/parse_event.hpp, detail/polymorphic_stack.hpp")],
 ["write_to_string","parse<T>","parse(str,obj)"])
p("C02","Serializing to a DOM and deserializing it gives back the same object",
 "For every object of a readable type, the DOM document produced by serializing it is accepted by deserializing into the same type, and the result equals the original, whether the DOM is used directly or is first printed to text and read back; this includes variants. Every overload (value-returning or into a target; from a document, a string, or a temporary string) gives the same object, and what the target object or document held before does not matter.",
 ["inputs","programs"],"All values of all compositions of supported types, all overloads (same bounded universe as C01 plus pair, tuple, variant).",
 "Tests check a handful of values per type through one overload.",
 [I+"serialize.hpp",I+"deserialize.hpp",I+"utility.hpp",I+"serialize_object.hpp",I+"deserialize_object.hpp",I+"serialize_map.hpp",I+"deserialize_map.hpp",I+"serialize_tuple.hpp",I+"deserialize_tuple.hpp",I+"deserialize_variant.hpp"],
 [("one serializer and one deserializer specialization per type","serialize_*.hpp / deserialize_*.hpp")],
 ["serialize_to_document","document_to_string","string_to_document","deserialize<T>","deserialize(src,obj)"])
p("C03","Written JSON is valid, has the documented shape, and is the same in both modes",
 "For every object, the text written directly and the text of its serialized DOM are byte-identical, are valid JSON, and denote exactly the documented structure: booleans, numbers and strings as themselves, enumerations as integer or name, bytes as Base64, dates as ISO strings, sequences/sets/pairs/tuples as arrays in iteration order, dictionaries and classes as objects (class members in declaration order, base members first), empty optionals omitted, variants as the held alternative, pointers as the pointee.",
 ["inputs","programs"],"All objects of all compositions of supported types (bounded universe as in C02, plus write-only types: raw pointers, string views, literal dictionaries).",
 "Tests compare a few literal strings; the shape must hold for every composition, size and value.",
 [I+"write.hpp",I+"serialize.hpp",I+"write_fundamental.hpp",I+"serialize_fundamental.hpp",I+"write_map.hpp",I+"serialize_map.hpp",I+"write_variant.hpp",I+"serialize_variant.hpp"],
 [("paired writer/serializer specializations","write_*.hpp / serialize_*.hpp")],
 ["write_to_string","serialize_to_document","document_to_string"])
p("C04","Both readers accept exactly the conforming documents and agree on the value",
 "For every type and every well-formed JSON document without duplicate keys, the direct parser and the DOM deserializer succeed exactly when the document conforms to the type (right JSON kinds, exact array/tuple lengths, in-range numbers, valid names/dates/Base64, all required members present), and then both yield the value the document denotes. A wrong element at any position or depth, or an element too many or too few, makes the whole read fail in both modes; the two modes differ only in that the direct parser rejects unknown class members, which the DOM deserializer ignores.",
 ["inputs","programs"],"All documents x all target types (bounded: all documents up to a small size over a representative alphabet, all single and two-point edits of conforming documents, all positions of containers up to 12 and tuples/arrays/classes of every arity used).",
 "Tests contain about twenty rejection examples, mostly at top level.",
 [I+"parse_base.hpp",I+"parse_vector.hpp",I+"parse_set.hpp",I+"parse_array.hpp",I+"parse_map.hpp",I+"parse_object.hpp",I+"deserialize_check.hpp",I+"deserialize_array.hpp",I+"deserialize_tuple.hpp",I+"deserialize_vector.hpp",I+"deserialize_object.hpp"],
 [("expected-token handlers","parse_base.hpp"),("check_string/array/object/size","deserialize_check.hpp")],
 ["parse(str,obj)","deserialize(doc,obj)"])
p("C05","Malformed JSON text is always rejected",
 "No text that is not exactly one well-formed JSON value (with optional surrounding whitespace) is ever accepted by parsing or deserializing from text, for any target type: truncated text, extra tokens before, inside or after the value, missing or extra separators and brackets, bad literals, bad numbers, bad escapes, raw control characters and trailing bytes all make the call fail. Whitespace between tokens never changes the outcome.",
 ["inputs"],"All texts (bounded: all token sequences up to a depth over a JSON token alphabet; every proper prefix, every single-byte deletion, insertion and replacement of a set of valid texts; every whitespace placement).",
 "One test checks one syntax error.",
 [I+"parse.hpp",I+"deserialize.hpp",I+"detail/parse_event.hpp",I+"parse_base.hpp"],
 [("error result of the underlying reader is checked on every path","parse.hpp, deserialize.hpp"),("handlers return false on unexpected tokens","parse_base.hpp")],
 ["parse(str,obj)","parse<T>(str)","deserialize(str,obj)","deserialize<T>(str)"])
p("C06","Integers are never silently changed: exact or refused",
 "Reading a JSON number into any integer type (alone or inside any container, class, enumeration or pointer) succeeds exactly when the number is an integer literal that the type can represent, and then stores exactly that integer; out-of-range and fractional numbers are refused in both reading modes. Writing an integer of any type produces exactly its decimal digits, and the public range check answers exactly whether an integer is representable in the target integer type.",
 ["inputs"],"All integer values x all integer types x all containers (bounded: every value for 8/16-bit types, +-300 around every power of two and ten and every type limit for wider ones, fraction/exponent spellings).",
 "Tests check the limits of a few types only.",
 [I+"number.hpp",I+"parse_fundamental.hpp",I+"deserialize_fundamental.hpp",I+"write_fundamental.hpp",I+"serialize_fundamental.hpp",D+"numeric_traits.hpp",I+"parse_vector.hpp",I+"parse_set.hpp",I+"parse_array.hpp",I+"parse_enum.hpp"],
 [("is_assignable","number.hpp"),("check_range","deserialize_fundamental.hpp")],
 ["parse(str,T)","deserialize(str,T)","write_to_string(T)","is_assignable<T>"])
p("C07","Floating-point values survive bit-exactly; unrepresentable ones are refused",
 "Every finite float and double written by either mode reads back in either mode as the identical value, bit for bit including the sign of zero. A decimal literal reads as the nearest double; a number that the target floating-point type cannot hold (overflow to infinity, or a 64-bit integer literal beyond the range in which the type represents all integers exactly) is refused by both reading modes rather than altered.",
 ["inputs"],"All finite doubles/floats and decimal literals (bounded: every exponent x mantissa pattern set, shortest-digits stress values, every float exponent x mantissa edge, integer literals around 2^24/2^53/2^63/2^64).",
 "Tests check about ten floating literals.",
 [I+"parse.hpp",I+"deserialize.hpp",I+"utility.hpp",I+"parse_fundamental.hpp",I+"deserialize_fundamental.hpp",I+"write_fundamental.hpp",I+"serialize_fundamental.hpp",I+"number.hpp"],
 [("full-precision number reading","parse.hpp, deserialize.hpp, utility.hpp"),("is_assignable","number.hpp")],
 ["parse","deserialize","write_to_string","serialize_to_document"])
p("C08","Class members: required, optional, defaulted, inherited, in any key order",
 "Reading a JSON object into a class succeeds exactly when every required member (base-class ones included) is present with a conforming value and every present optional or defaulted member conforms; absent optional members become empty, absent defaulted members keep their initial value, and present ones take the document's value, independently of each other. Key order never matters, each key sets only the member of that name, and a failure of any member makes the read fail whatever the other members do.",
 ["inputs","programs"],"All subsets of members present x all orders x all per-member validity patterns, for classes of every member-kind mix (bounded: classes of 1..8 members all subsets, orders up to 6!; derived chains up to depth 3).",
 "Tests use fixed documents with one missing member and one order.",
 [I+"object.hpp",I+"object_members.hpp",I+"object_reflection.hpp",I+"parse_object.hpp",I+"deserialize_object.hpp"],
 [("per-member operator& overloads","deserialize_object.hpp"),("member lookup and end-of-object check","parse_object.hpp")],
 ["parse(str,obj)","deserialize(str,obj)"])
p("C09","Every failure is reported through the right channel, at the right place",
 "Overloads that take a target return a boolean and never throw library errors; overloads that return a value throw exactly when the former return false: a parse error for direct parsing and malformed text, a deserialization error for a non-conforming DOM, a serialization error for writing. The deserialization error carries the JSON Pointer (RFC 6901, escaped, root written as /) of the offending value and the parse error carries a byte offset inside the text, after everything that was accepted and at or before the end of the offending token; the message of the exception names that same place in the documented form.",
 ["inputs","fault_sequences"],"All failing (type, document) pairs and all failure positions (bounded: every position of every container/class/tuple in conforming documents, array indices up to 120, nesting up to 12, key names with special characters).",
 "Tests check a few paths; escaping, two-digit indices, nested and derived positions are not reached.",
 [I+"exception.hpp",D+"path.hpp",D+"segment.hpp",D+"deserialize_context.hpp",I+"deserialize_check.hpp",I+"parse.hpp",I+"deserialize.hpp",I+"write.hpp",I+"serialize.hpp"],
 [("Path/Segment chain of contexts","detail/path.hpp, detail/deserialize_context.hpp"),("error propagation through boolean results","deserialize_*.hpp")],
 ["JsonParseError::offset","JsonDeserializationError::path","boolean results"])
p("C10","Base64 is RFC 4648: exact, inverse, strict and in bounds",
 "For every byte sequence, encoding yields the RFC 4648 padded Base64 text and decoding that text yields the same bytes; decoding accepts only well-formed Base64 (length multiple of four, alphabet characters, padding only at the end) and rejects everything else. Neither direction ever reads or writes outside its buffers, at any length or alignment, and byte vectors inside any object are written and read with this encoding.",
 ["inputs"],"All byte sequences and all texts (bounded: all inputs of 0..3 bytes, all lengths 0..300 with per-position bit patterns, all 4-character texts over a class alphabet, every position x every byte mutated in longer texts).",
 "Tests use two sentences and their prefixes.",
 [I+"base64.hpp",I+"bytes.hpp",I+"write_bytes.hpp",I+"parse_bytes.hpp",I+"serialize_bytes.hpp",I+"deserialize_bytes.hpp"],
 [("word-at-a-time encoder and table decoder","base64.hpp")],
 ["base64_encode","base64_decode","write/parse of byte vectors"])
p("C11","Dates and times convert exactly and invalid ones are refused",
 "Every calendar date from year 0000 to 9999 is written as YYYY-MM-DD and reads back as the same date, and every whole-second UTC instant the clock type can represent is written as YYYY-MM-DDTHH:MM:SSZ (a space in place of the T is also read) and reads back as the same instant, in the proleptic Gregorian calendar. Strings that are not exactly of that form, have out-of-range fields (month, day of month including leap years, hour, minute, second), or denote instants the clock type cannot represent are refused.",
 ["inputs"],"All dates, all instants, all strings (bounded: all 3.65 million dates; all seconds of chosen days and all days of the representable range; all field values 00..99; every single-character mutation).",
 "Tests check a few dates and a few invalid strings.",
 [I+"datetime.hpp",I+"write_date.hpp",I+"parse_date.hpp",I+"serialize_date.hpp",I+"deserialize_date.hpp",I+"write_datetime.hpp",I+"parse_datetime.hpp",I+"serialize_datetime.hpp",I+"deserialize_datetime.hpp"],
 [("fixed-layout digit parsing and validity tables","datetime.hpp")],
 ["parse_date","parse_datetime","to_iso_date","to_iso_datetime","make_datetime","write/parse/serialize/deserialize of dates"])
p("C12","Shared objects are written once and come back shared",
 "For every acyclic object graph held together by shared pointers, writing emits each shared object once, at its first occurrence in document order, and every later occurrence as {\"$ref\": P} where P is the JSON Pointer of that first occurrence; reading the document through the DOM yields a graph in which two pointers are equal exactly when they were equal in the original, whatever pointers the target held before. Distinct objects are never merged, however they are nested in sequences, sets, dictionaries, tuples, optionals, variants and class members, and whatever the keys (other than the reserved $ref) and indices on the path.",
 ["inputs","programs"],"All sharing patterns (bounded: all set partitions of up to 7 pointer slots in every container kind, two-level DAGs, keys with / ~ empty and digits, indices up to 120).",
 "Tests have one vector and one class with a single shared pair.",
 [I+"write_pointer.hpp",I+"serialize_pointer.hpp",I+"deserialize_pointer.hpp",D+"references.hpp",D+"output_context.hpp",D+"path.hpp",D+"deserialize_context.hpp",I+"write_set.hpp",I+"serialize_set.hpp"],
 [("reference tables keyed by pointer / DOM value","detail/references.hpp"),("context chain producing paths","detail/output_context.hpp")],
 ["write_to_string","serialize_to_document","deserialize","shared_ptr identity"],
 [("reference table","first occurrence of each shared object","detail/output_context.hpp, detail/deserialize_context.hpp")])
p("C13","Bad back-references are refused and never fabricate an object",
 "When a document contains {\"$ref\": X} where a shared pointer is expected, reading through the DOM succeeds only if X is a string that points to an already-read location at which a shared pointer of the same type was produced, and then the very same object is shared; every other X (not a string, malformed or unresolvable pointer, forward or self reference, location not holding a shared pointer, or one of a different type) makes the read fail with a deserialization error or false, without crashing.",
 ["inputs"],"All documents with back-references (bounded: every path string over the document's segments up to length 4, all JSON kinds as the target, all placements of one and two references).",
 "No test has an invalid reference.",
 [I+"deserialize_pointer.hpp",D+"deserialize_context.hpp",D+"references.hpp"],
 [("lookup in the table of read pointers","deserialize_pointer.hpp")],
 ["deserialize(str,obj)","deserialize<T>(str)"])
p("C14","No input makes the library access memory out of bounds, leak or overflow",
 "For every text, document and object (nested no deeper than the process stack can hold) given to any public function, execution is free of out-of-bounds and use-after-free accesses, undefined behaviour and leaks, whether the call succeeds or fails. Nesting too deep for the direct parser is refused as an ordinary failure, while supported depths succeed, and documents built from temporary strings stay valid on their own.",
 ["inputs","programs"],"All inputs and types (bounded: the union of the read/write universes executed under address, leak and undefined-behaviour instrumentation, nesting depths 1..400).",
 "Tests run uninstrumented on small inputs.",
 [D+"polymorphic_stack.hpp",I+"parse.hpp",I+"parse_base.hpp",I+"base64.hpp",I+"utility.hpp",I+"deserialize.hpp",I+"write_pointer.hpp",I+"deserialize_pointer.hpp"],
 [("bounded handler stack","detail/polymorphic_stack.hpp"),("ownership by smart pointers and documents","deserialize.hpp, utility.hpp")],
 ["all public functions under sanitizers"])
p("C15","A fault at any point of a call loses no memory and breaks nothing",
 "If any single memory allocation made by the library's own C++ code fails, or any constructor of a user type throws, during writing, parsing, serializing or deserializing, the call reports it (the fault's exception, or false) without crashing, double destruction, leaks or corrupting the source object, and a subsequent identical call without the fault gives the normal result.",
 ["fault_sequences","inputs"],"Every allocation index and every user-constructor index of every scenario (bounded: about 240 operations, each k until the call completes unfaulted, in fresh and used processes, and pairs of successive faults).",
 "No test injects a fault.",
 [D+"polymorphic_stack.hpp",I+"parse_base.hpp",I+"deserialize_pointer.hpp",I+"deserialize_variant.hpp",I+"deserialize_map.hpp",I+"parse_vector.hpp",I+"write.hpp"],
 [("RAII ownership; commit after success","all *_pointer/_map/_vector headers"),("stack destructor","detail/polymorphic_stack.hpp")],
 ["operator new counter","live-object counter of an instrumented user type"])
p("C16","Property names select exactly the member of that name",
 "For every class with any number of members and any set of distinct member names, a JSON key selects a member if and only if it equals that member's name in full; near-miss keys (prefixes, extensions, case changes, permutations, equal-length or colliding names, empty key, embedded NUL) never select a member. The public perfect-hash construction succeeds for every set of distinct names and maps each name to its own index.",
 ["inputs","programs"],"All name sets and all keys (bounded: all name sets of size 1..4 over words of length 0..3 on a 2-letter alphabet, structured sets up to 64 names, classes of 1..24 members; all keys at edit distance 1).",
 "Tests build one hash of fixed names.",
 [D+"perfect_hash.hpp",D+"bitset.hpp",I+"parse_object.hpp",I+"deserialize_object.hpp"],
 [("perfect hash plus full-name comparison","parse_object.hpp"),("solo and pair special cases","parse_object.hpp")],
 ["PerfectHash::index","parse(str,obj)","deserialize(str,obj)"])
p("C17","Concurrent calls on separate data give the sequential results",
 "When several threads call library functions at the same time on data that they do not share (or share read-only), every call returns exactly what it returns when run alone, under every interleaving of the threads.",
 ["schedules"],"All interleavings of 2..3 threads each making one or two calls, from a cold and a warm start (bounded: every pair of about 130 operations; all preemptions at synchronisation shared by the threads, preemption bound 2, data races detected on all accesses).",
 "No test uses threads.",
 [I+"datetime.hpp",I+"parse_object.hpp",I+"parse.hpp",I+"deserialize.hpp",D+"perfect_hash.hpp",I+"enum_utility.hpp"],
 [("absence of mutable shared state, thread-safe static initialisation","parse_object.hpp, datetime.hpp")],
 ["results of concurrent calls under a controlled scheduler"])
p("C18","Calls are pure: outcome depends only on the arguments, never on history",
 "The result of every call depends only on its arguments: earlier calls (successful, failed or thrown, of the same or other types, including calls made during static initialisation) never change the outcome of a later one, repeated calls give identical results, and a source object, document or lvalue string is never modified by the call.",
 ["histories","inputs"],"All sequences of operations (bounded: all sequences of length <= 3 over ~130 operations incl. failing ones; depth 4 on a core set; every operation during static initialisation).",
 "Tests call each operation once on fresh data.",
 [I+"parse_object.hpp",I+"parse.hpp",I+"deserialize.hpp",I+"write.hpp",I+"serialize.hpp",D+"references.hpp"],
 [("per-call contexts","parse.hpp, write.hpp, serialize.hpp, deserialize.hpp"),("const inputs","public signatures")],
 ["results of operation sequences"])
p("C19","The generated JSON schema accepts what is written and what can be read only",
 "For every type with a schema, the generated schema text is valid JSON, every object of the type written without back-references validates against it, and non-conforming documents of the wrong kind, out of integer range, with wrong array length, missing required or unknown members do not. Every local reference in a schema resolves, optional members are not required, and generation terminates for recursive classes.",
 ["inputs","programs"],"All types x values and near-miss documents (bounded: ~50 types x their value domains x single-point edits, validated by an independent schema interpreter).",
 "Tests compare eight literal schema strings.",
 [I+"schema.hpp",I+"schema_utility.hpp"],
 [("JsonSchema specializations","schema.hpp")],
 ["schema_to_string<T>","schema_document_to_string<T>","write_to_string"])
p("C20","Values without a JSON form are refused by every writer, from any depth",
 "If an object contains, anywhere inside it, a value with no JSON representation (a NaN or infinite number, a null pointer, or a date outside the representable years), both writing modes fail: the boolean overload returns false and leaves the target string untouched, the value-returning overload throws a serialization error, and no truncated, partial or invalid JSON is ever delivered as success. Objects without such a value are always written.",
 ["inputs","programs"],"All positions of the bad value in all compositions (bounded: every slot of ~40 container/class shapes incl. derived classes and two-level nesting, each of NaN, +inf, -inf, null).",
 "No test writes an unrepresentable value.",
 [I+"write_fundamental.hpp",I+"serialize_fundamental.hpp",I+"write_object.hpp",I+"serialize_object.hpp",I+"write_pointer.hpp",I+"serialize_pointer.hpp",I+"write.hpp",I+"serialize.hpp"],
 [("boolean result propagated through every writer/serializer","write_*.hpp, serialize_*.hpp")],
 ["write_to_string","serialize_to_document"])
p("C21","String contents and dictionary keys are preserved byte for byte",
 "Every string value and every dictionary key, of any length and any bytes (control characters, quotes, backslashes, NUL, every Unicode scalar value in UTF-8), is written as a correctly escaped JSON string and reads back identical in both modes; on reading, every escape sequence including \\uXXXX and surrogate pairs denotes its character and malformed escapes or an unpaired high surrogate are refused. No string or key is ever truncated, merged or normalised.",
 ["inputs"],"All strings (bounded: all 1- and 2-byte strings, all BMP and boundary supplementary code points raw and escaped, all lengths 0..600 plus powers of two to 64K, special bytes at every position).",
 "Tests use short ASCII and a few accented strings.",
 [I+"write_string.hpp",I+"serialize_string.hpp",I+"parse_string.hpp",I+"deserialize_string.hpp",I+"write_map.hpp",I+"serialize_map.hpp",I+"parse_map.hpp",I+"deserialize_map.hpp"],
 [("length-carrying strings on every path","*_string.hpp, *_map.hpp")],
 ["write_to_string","serialize_to_document","parse","deserialize"])
p("C22","A variant takes the first alternative that fully matches",
 "Reading a document into a variant through the DOM selects the first alternative, in declaration order, into which the whole document could be read on its own, with exactly the value that reading would give; it fails if and only if no alternative matches. Failed attempts at earlier alternatives leave no trace in the value, in sharing of pointers, or in error reporting, and writing a variant writes the held alternative only.",
 ["inputs","programs"],"All documents x variant shapes (bounded: ~16 variants over overlapping alternatives, nested in containers, all documents of the C04 universe).",
 "Tests read two or three literals into one variant.",
 [I+"deserialize_variant.hpp",I+"write_variant.hpp",I+"serialize_variant.hpp",I+"deserialize_object.hpp",D+"references.hpp"],
 [("short-circuit fold over alternatives using the boolean reader","deserialize_variant.hpp")],
 ["deserialize(str,variant)","write_to_string(variant)"])
p("C23","The polymorphic stack is LIFO, aligned, bounded, and destroys exactly once",
 "For every sequence of pushes of objects of any sizes and alignments and pops, the polymorphic stack's top is always the most recently pushed surviving object with its contents intact and properly aligned in disjoint storage; exceeding capacity or popping when empty throws out_of_range and changes nothing. Every object that was fully constructed is destroyed exactly once, by its pop or by the stack's destruction, also when a constructor throws.",
 ["histories","fault_sequences"],"All operation sequences (bounded: all sequences of push of several object kinds / throwing push / pop up to a depth on small-capacity instances, full-capacity walks on the default instance).",
 "Tests push and pop one fixed sequence.",
 [D+"polymorphic_stack.hpp"],
 [("in-place construction with a saved-position array","detail/polymorphic_stack.hpp")],
 ["PolymorphicStack operations"],
 [("current/next/items/count","stack position and saved positions","detail/polymorphic_stack.hpp")])
p("C24","Enumerations map one-to-one between values and names or integers",
 "Every named enumerator of an enumeration with a string mapping (user-supplied conversion, converter table, or Boost.Describe) is written as exactly its name and read back from exactly that name, at top level and inside any container, dictionary, optional, pointer or class; any other string (unknown, different case, prefix, extension, embedded NUL) and any non-string is refused. Enumerations without a mapping are written as their underlying integer and read from every integer in the underlying range and nothing else.",
 ["inputs","programs"],"All enumerators, all near-miss names, all underlying integers (bounded: 6 enumerations of 1..8 and 16-bit underlying types, full 8-bit domains, all single-character edits of names, 12 containing shapes).",
 "Tests cover two enumerations at top level and in one class.",
 [I+"enum.hpp",I+"enum_utility.hpp",I+"write_enum.hpp",I+"serialize_enum.hpp",I+"parse_enum.hpp",I+"deserialize_enum.hpp"],
 [("enum_traits / Boost.Describe conversions","enum.hpp, *_enum.hpp"),("EnumConverter lookup","enum_utility.hpp")],
 ["write_to_string","serialize_to_document","parse","deserialize","EnumConverter"])
p("C25","User-supplied specializations are honoured wherever their type occurs",
 "A type for which the user specializes JsonWriter, JsonSerializer, JsonParser and JsonDeserializer (the documented extension point) is written and read by exactly that code wherever it occurs: at top level, as element of every container and tuple-like type, as pointee, as required, optional, defaulted or inherited member, as variant alternative, and inside other user-supplied types that delegate to the library. The user's form takes precedence over a built-in one. When the user's code refuses a value, the call fails through the channel of its overload, with the reason and location given by the user's code, and a failed write leaves the target unchanged; when it throws an exception of its own, that exception reaches the caller unchanged; shared objects reached through user-supplied types keep their identity. Nothing is leaked.",
 ["programs","inputs","faults"],"All values, documents and places of failure, for user types of every JSON kind in every containing shape (bounded: 8 kinds of user types and 2 wrappers, 25 shapes, single-point edits, one refused or throwing value at every place).",
 "Tests have no user-supplied specialization at all.",
 [I+"write.hpp",I+"serialize.hpp",I+"parse.hpp",I+"deserialize.hpp",I+"write_base.hpp",I+"serialize_base.hpp",I+"parse_base.hpp",I+"deserialize_base.hpp",I+"parse_items.hpp",I+"parse_array.hpp",I+"parse_object.hpp"],
 [("make_writer / make_serializer / make_deserializer dispatch","write.hpp, serialize.hpp, deserialize.hpp"),("JsonParseHandler and ReaderContext","parse_base.hpp"),("context propagation to nested elements","detail/output_context.hpp, detail/deserialize_context.hpp")],
 ["write_to_string","serialize_to_document","parse","deserialize","JsonWriter","JsonSerializer","JsonParser","JsonDeserializer"])
p("C26","Behaviour does not depend on header selection, order, compiler or language level",
 "Every public header can be included on its own, repeatedly, in any order with others, and in several translation units of one program. A program that includes, for an operation, only the documented headers of the types that occur (write_*.hpp, serialize_*.hpp, parse_*.hpp, deserialize_*.hpp and the operation's own header), or the *_all.hpp headers, or persistence.hpp, compiles as C++17 and later with GCC and Clang, with and without PERSISTENCE_BOOST_DESCRIBE and at every optimization level, and produces the same texts, documents, values, refusals and schemas in all of these configurations (dates of std::chrono need C++20; the Boost macro affects only described enumerations).",
 ["programs","configurations"],"All selections and orders of headers, compilers, language versions and macros (bounded: 17 kinds of types x 4 operations with the headers of the types that occur, opposite orders in quick and all orders of up to four headers in thorough, all-operation programs, collective headers in 4 orders, each public header alone; g++ and clang++, C++17/20/23).",
 "The tests are built with one compiler, one language version, one set of macros, and include nearly everything.",
 [I+"persistence.hpp",I+"write_all.hpp",I+"serialize_all.hpp",I+"parse_all.hpp",I+"deserialize_all.hpp",I+"enum.hpp",I+"datetime.hpp",I+"schema_utility.hpp","README.md"],
 [("each header includes what it uses","include/persistence/*.hpp"),("language-version branches","*_all.hpp, datetime.hpp, schema.hpp"),("PERSISTENCE_BOOST_DESCRIBE branches","*_enum.hpp, schema.hpp")],
 ["write_to_string","serialize_to_document","parse","deserialize","schema_to_string"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
