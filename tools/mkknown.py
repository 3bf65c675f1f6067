#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.jsonl"""
import json, os
FIXED = """
ea77814 C16 PerfectHash construction never terminates for some sets of distinct names
292560d C08 the object deserializer forgets the failure of an earlier member when a later one succeeds
cdbc1c8 C20 the object serializer forgets the failure of an earlier member and delivers an object without it
5a71394 C08 the failure of a base-class member is lost when the derived class's members succeed (reading and writing)
beaa1f3 C24 the string-enumeration parser never leaves the stack, so nothing after it is parsed correctly
9edf270 C01 vector and set parsers do not handle numbers for character, enumeration and pointer elements
a3b4740 C08 the direct parser accepts objects whose required members are missing
bd0c3f1 C10 the Base64 encoder reads past the end of its input
ef51180 C17 date conversion uses the shared static buffer of gmtime
324726b C11 dates outside the range of the clock type overflow instead of being refused
134ed48 C07 floating-point numbers are not read with full precision
9b14f44 C14 string_to_document(string&&) returns a document that refers to freed memory
0648bae C05 text after an embedded NUL character is ignored
8e40890 C07 the DOM reader of floating-point numbers alters or refuses representable numbers
93c27c0 C21 dictionary keys are truncated at an embedded NUL character
994121f C09 JSON Pointers in errors and back-references are not escaped and drop empty keys
b688c7d C12 back-references into sets name the wrong index
9809c1d C22 a reference recorded by a discarded variant alternative is reused for a later alternative
11ad612 C20 null pointers are dereferenced when written
533c37e C23 PolymorphicStack destroys an object twice when its constructor throws
8cd90ee C23 PolymorphicStack misaligns objects and assumes that the base is at offset zero
b512db7 C14 the parser takes a reference to the top of an empty stack
3d07083 C14 nesting deeper than the parser stack escapes as an exception of another kind
f74ed19 C18 member lookup gives wrong results when used during static initialisation
a60b559 C24 Boost.Describe enumerations accept names with an embedded NUL character
0d68fce C12 distinct objects at the same address (first member) are merged into one back-reference
cfb9470 C13 back-references that are not strings or do not resolve crash or are accepted
99c0f71 C22 references recorded by failed variant alternatives remain usable
29e256a C19 the schema of enumerations does not match what is written
4d2bf7c C19 generating the schema of recursive classes never terminates
fa9afad C19 the schema of classes with default member initializers cannot be generated
f01a317 C14 parse_number for floating-point types reads past the end of a string view
1d1ca21 C05 string_to_document ignores text that follows a null character
4232f40 C07 numbers close to the limits of a double and zeros with an exponent are misread or cause out-of-bounds access in RapidJSON
24fe62a C12 a back-reference through a member name with an embedded NUL character resolves to another object or is refused
1089f36 C16 PerfectHash construction still never terminates for sets of short names such as q, a, 1, 11
06d6ea7 C23 PolymorphicStack does not reclaim all memory of an object whose base class is at a non-zero offset
0c50cc1 C21 control characters U+001A to U+001F in strings of 16 or more characters are written unescaped, which is invalid JSON, and are accepted unescaped (SIMD code of RapidJSON 1.1.0)
8b8c5da C02 arrays of move-only types cannot be deserialized
42ebddf C14 an indeterminate value is copied into an optional member whose deserialization fails
243d98d C19 the schema of an empty tuple carries an empty prefixItems, which JSON Schema does not allow
a725d81 C26 deserialize_all.hpp, parse_all.hpp and several other headers do not compile on their own: they use names of standard and library headers that they do not include
"""
KNOWN = [
    dict(status='known', property='C01', what='string_dict<T> (vector<pair<string, T>>) is written as a JSON object, but parse only reads it from an array of pairs',
         match=dict(unit='string_dict', case=r'string_dict<int> of \d+ entries', detail='written as an object, which reading refuses')),
    dict(status='known', property='C02', what='string_dict<T> (vector<pair<string, T>>) is serialized as a JSON object, but deserialize only reads it from an array of pairs',
         match=dict(unit='string_dict', case=r'string_dict<int> of \d+ entries', detail='written as an object, which reading refuses')),
    dict(status='known', property='C12', what='two distinct shared_ptr<shared_ptr<T>> that hold the same inner pointer come back merged or are refused, because outer and inner pointer are written at the same place',
         match=dict(unit=r'shared pointer to shared pointer, outer (001 inner 00|010 inner 00|011 inner 00|012 inner (000|001|010|011))', case=r'pointer to pointer outer \d+ inner \d+',
                    detail=r'(document refused: |deserialize\(document\): sharing or contents differ).*')),
    dict(status='known', property='C19', what='the schema of a variant combines its alternatives with oneOf, so a written object that fits several alternatives (e.g. 1 for variant<..., int, ..., double>) is refused by the schema; the existing test fixes the keyword oneOf',
         match=dict(unit=r'objects of V[46789] L\d', case=r'V[46789] \| .*', detail=r'a written object matches several alternatives of oneOf: .*')),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'KNOWN_FINDINGS.jsonl'), 'w') as f:
    for k in KNOWN:
        f.write(json.dumps(k) + '\n')
    for l in FIXED.strip().splitlines():
        h, p, w = l.split(' ', 2)
        f.write(json.dumps({'status': 'fixed', 'property': p, 'commit': h, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, h, w)}) + '\n')
