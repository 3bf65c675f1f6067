"""Definition of the checks: sources, flags and what the exploration covers."""
BASE = ['core.cpp', 'main.cpp', 'lib.cpp']
UNI = dict(universe=True)
# the configuration that differs most from that of the other checks (Clang, GNU C++20, Boost.Describe, assertions)
OTHER = dict(flags=['-std=c++17', '-UPERSISTENCE_BOOST_DESCRIBE', '-DNDEBUG'], cxx=('g++',))


def c(level, rule, *bins, **kw):
    return dict(level=level, rule=rule, bins=list(bins), **kw)


def b(name, src, **kw):
    return dict(name=name, src=src, **kw)


OPS = ['ops.cpp', 'ops_a.cpp', 'ops_b.cpp', 'ops_c.cpp', 'ops_d.cpp', 'ops_e.cpp']
TSAN = ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gline-tables-only']
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'memcpy memmove memset memcmp bcmp memchr strlen strcmp strcpy strncpy vsnprintf snprintf sprintf strftime gmtime localtime gmtime_r localtime_r timegm mktime asctime getenv setenv unsetenv putenv setlocale strtok rand'.split()), '-rdynamic', '-ldl']

CHECKS = {
    'C01': c('exploration',
             'for every type of the universe (about 190 types: every fundamental type, enumeration, container, class shape, and all element-in-container combinations), '
             'every value of its enumerated domain (boundary alphabets, all container sizes of a ladder up to 4097, deep nestings) is written and parsed back; '
             'a case is non-trivial if the reference model says the value is representable; distinct = distinct (type, reference text)',
             b('roundtrip', BASE + ['deep.cpp', 'large.cpp', 'c01.cpp', 'c01k.cpp'], **UNI)),
    'C02': c('exploration',
             'for every type of the universe including variants, every value of its enumerated domain is serialized to a DOM (both overloads, also into a document that held another value) and deserialized through every overload '
             '(DOM, text, temporary text; into a target or returned); non-trivial if representable; distinct = distinct (type, reference text)',
             b('roundtrip', BASE + ['deep.cpp', 'large.cpp', 'c02.cpp', 'c01k.cpp'], **UNI)),
    'C03': c('exploration',
             'for every type of the universe and every value of its domain the direct text, the printed DOM and the reference encoding are compared byte for byte; '
             'distinct = distinct (type, reference text) among representable values',
             b('shape', BASE + ['deep.cpp', 'large.cpp', 'c03.cpp', 'c03w.cpp'], **UNI)),
    'C04': c('exploration',
             'for every readable type: all generic documents up to a size and all single-point structural edits (every node replaced by every alphabet value, elements removed, '
             'duplicated, inserted, renamed) of conforming documents of the domain, plus a wrong element at every position of long sequences; both readers are compared with the reference '
             'reader; distinct = distinct (type, document)',
             b('read', BASE + ['large.cpp', 'deep.cpp', 'c04.cpp'], **UNI)),
    'C09': c('exploration',
             'the document universe of C04; every overload of both readers is called, channel, success agreement and reported location are compared with the reference reader; '
             'all prefixes, single-byte deletions and insertions of conforming documents and of large and deep ones: parse error at the place where the text stops being JSON; '
             'non-trivial if the reading fails; distinct = distinct (type, mode, document)',
             b('errors', BASE + ['large.cpp', 'deep.cpp', 'c04.cpp', 'c09m.cpp'], defs=['-DCHECK_C09'], **UNI)),
    'C05': c('model_checking',
             'states = configurations of the JSON token automaton reached per type, transitions = token steps; every token sequence up to the depth bound (dead prefixes extended by up to two '
             'tokens) is given to every reading overload of the real code, and likewise all prefixes, single-byte deletions/insertions/replacements/swaps, surroundings and whitespace placements of '
             'conforming documents; traces = malformed texts whose verdict was compared; distinct = distinct malformed (type, text)',
             b('malformed', BASE + ['large.cpp', 'deep.cpp', 'c05.cpp'], **UNI)),
    'C06': c('exploration',
             'every integer type and enumeration x a literal set closed around all powers of two and ten, all sums of two powers (wrap-around candidates), all small integers, fractional and exponent forms; '
             'in 28 nesting contexts and every field of the matrix classes; every value of the 8/16-bit types through every mode; range check for all type pairs; distinct = distinct (type/context, literal)',
             b('integers', BASE + ['c06.cpp', 'c06w.cpp', 'c06i.cpp'], internal=['c06i.cpp'], fallback={'c06i.cpp': 'c06x.cpp'}, **UNI)),
    'C07': c('exploration',
             'floats and doubles: every exponent x a mantissa set (all one- and two-bit patterns and complements, prefixes, ladders) x sign, through all four writer/reader pairs and the DOM (thorough: all 2^32 '
             'floats); decimal literals: 130 significands x exponents -400..420 in five notations, integers around all powers of two, exact midpoints of neighbouring doubles; distinct = distinct values and literals',
             b('floats', ['core.cpp', 'main.cpp', 'c07.cpp'], opt='-O2')),
    'C08': c('exploration',
             'for 37 class shapes (required/optional/defaulted/inherited/nested/recursive members): every assignment of {absent, conforming, wrong kind, null, other conforming} to the members (complete for up to 8 '
             'members, all one- and two-member deviations beyond), in all key orders for small documents, and unknown members at every position; distinct = distinct (class, document)',
             b('classes', BASE + ['c08.cpp'], filter='C1;C1o;C1d;C1s;C1so;C1sd;C1v;C1c;C1p;C2s;C2so;C2c;C3s;CLong;C2;C2o;C2oo;C2d;C3;C4;C5;C6;C8;C8o;CNames;C10;C24;C40;Base;Der;Der2;D1;D2;Nest;Tree;List;MTree;std::vector<C2>;std::map<std::string, C2>;std::unique_ptr<C2>;std::shared_ptr<C2>;std::array<C2, 2>', **UNI)),
    'C10': c('exploration',
             'all byte sequences of up to three bytes, every byte value at every position of every length up to 34, every length up to 420 (thorough 4200) at all 16 alignments in exact-size heap blocks under '
             'AddressSanitizer; decoding: all four-character texts over a class alphabet, every byte at every position and pair mutations of one to three quadruplets, all padding patterns up to 12 characters; '
             'byte vectors of every length up to 130 inside every container kind; distinct = distinct inputs',
             b('codec', ['core.cpp', 'main.cpp', 'c10.cpp'], opt='-O2'),
             b('bounds', ['core.cpp', 'main.cpp', 'c10.cpp'], san=True, leaks=False, defs=['-DC10_BOUNDS'])),
    'C11': c('exploration',
             'every calendar date 0000-01-01..9999-12-31 through both writers and readers; instants around both sides of every day boundary of the clock range, every second of five days, the 90000 seconds inside and outside '
             'each limit; all month/day field values, all time field values, all single-byte and class-pair mutations, insertions, deletions, prefixes and suffixes of both forms; distinct = distinct texts',
             b('dates', ['core.cpp', 'main.cpp', 'c11.cpp'], opt='-O2')),
    'C12': c('model_checking',
             'states = object graphs: all set partitions of the pointer slots of 60 container/class shapes (up to 9 slots, thorough 11), all acyclic graphs of 4 (thorough 5) class objects with five kinds of edges, aliased subobjects, '
             'sets of pointers, all keys and indices on the path (up to six digits), reading into targets that already share objects; transitions = slot assignments; traces = readings of the real code compared with the model graph; distinct = distinct (shape, text)',
             b('sharing', ['core.cpp', 'main.cpp', 'c12.cpp'], opt='-O0'),
             technique='explicit enumeration of all sharing graphs up to a size; every graph is replayed on the real writers and readers'),
    'C13': c('exploration',
             'for 25 document/type pairs with shared pointers of every kind of enclosing element: every node replaced by a reference whose target is every location of the document, every near-miss of such a location, '
             'a list of malformed or unresolvable pointers, every non-string; references among other members; all pairs of references at all pairs of nodes; compared with the reference reader including object identity, under AddressSanitizer with assertions on; '
             'distinct = distinct (type, document)',
             b('references', ['core.cpp', 'main.cpp', 'c13.cpp'], opt='-O0', san=True)),
    'C16': c('exploration',
             '28 classes of 1..100 and 270 members with adversarial name sets (prefix chains, permutations, case variants, names equal in low-order bits, empty, long, non-ASCII): every near-miss key (all prefixes, suffixes, insertions, replacements, '
             'bit flips, swaps, concatenations) and all strings of one and two characters, plain and escaped, in both readers; the perfect hash over all ordered selections of up to 4 (5..8 unordered) names of three universes, '
             'all sets of up to three single-byte names, and 17 name families at every size 1..72 and nine larger sizes; distinct = distinct (class, key) and name lists',
             b('names', ['core.cpp', 'main.cpp', 'c16.cpp', 'c16b.cpp', 'c16c.cpp', 'c16h.cpp', 'c16f.cpp'], internal=['c16h.cpp', 'c16f.cpp'], fallback={'c16h.cpp': 'c16x.cpp', 'c16f.cpp': 'c16g.cpp'},
               src_opt={'c16.cpp': '-O0', 'c16b.cpp': '-O0', 'c16c.cpp': '-O0', 'c16f.cpp': '-O0'})),
    'C24': c('exploration',
             '17 enumerations (converter table, user conversion, Boost.Describe, none; 1 to 8, 50 and 300 enumerators, odd names, 8- to 64-bit underlying types) in 16 containing shapes: every enumerator, all single-character edits, prefixes, '
             'suffixes, concatenations and bit flips of every name, all alphabet values of other kinds, all 8-bit (thorough 16-bit) integers and neighbours of all powers of two; read by every overload and written back; '
             'distinct = distinct (enumeration, shape, document)',
             b('enums', ['core.cpp', 'main.cpp', 'lib.cpp', 'docstub.cpp', 'c24.cpp', 'c24b.cpp', 'c24c.cpp', 'c24d.cpp', 'c24e.cpp'], opt='-O0')),
    'C19': c('exploration',
             'every type of the universe that has a schema (about 185): the schema is generated twice as text and as document, all references and keywords are checked, and it is interpreted by an independent JSON Schema validator on every written '
             'object of the domain, on all generic documents and on all single-point edits of conforming documents, against the conformity of the document to the C++ type (kinds, integer ranges, lengths, required and unknown members); '
             'distinct = distinct (type, document)',
             b('schema', BASE + ['c19.cpp'], udefs=['-DWITH_SCHEMA', '-DOPS_WRITE'], **UNI)),
    'C20': c('exploration',
             'about 130 shapes (all containers of floats, dates, smart pointers; containers of containers; classes with required, optional, defaulted, inherited members; variants; recursive classes): every place of every object of the domain that can hold '
             'a float, date or smart pointer is given each of NaN, -NaN, +-infinity, null, years outside 0..9999, and the object is written by every overload into empty, short and long targets; the unaltered object must be written; '
             'distinct = distinct (type, object, place, value)',
             b('unrepresentable', ['core.cpp', 'main.cpp', 'lib.cpp', 'docstub.cpp', 'c20.cpp', 'c20b.cpp', 'c20c.cpp'], opt='-O0')),
    'C25': c('exploration',
             'user-supplied specializations of all four templates for types of every JSON kind (string, number, true, null, array, object; handlers that take their tokens themselves, delegate, inherit or replace; a class with members '
             'and an enumeration with a form of their own; transparent wrappers) in 25 containing shapes each: every value of the domain, all generic documents and all single-point edits of conforming documents, by every overload against the '
             'reference; at every place a value that the user code refuses (channel, location, reason) or at which it throws; every partition of six shared objects reached through wrappers; under AddressSanitizer; '
             'distinct = distinct (type, document or object, place)',
             b('extensions', ['core.cpp', 'main.cpp', 'lib.cpp', 'docstub.cpp', 'c25.cpp'] + ['c25%s.cpp' % x for x in 'snbzaowe'], opt='-O0', san=True)),
    'C26': c('exploration',
             'configurations of the library: 4 operations x 17 kinds of types with only the headers of the types that occur in opposite orders (thorough: all orders), all operations together with each one first, the collective headers in several '
             'orders for {g++, clang++} x {C++17, 20, 23} x {Boost.Describe macro on, off} and with optimization, every public header on its own twice, all headers in two translation units of one program, schemas in every configuration; '
             'each generated program is compiled against the current tree, linked, run, and its outcomes (texts, documents, values, refusals) compared with the expected ones; the explorations of C03 (writers), C04 (readers) and C23 (stack) are repeated with GCC as strict C++17 without the Boost macro and with NDEBUG; distinct = distinct (program, configuration), (type, value), (type, document), sequences',
             b('configurations', ['core.cpp', 'main.cpp', 'c26.cpp'], internal=['c26.cpp']),
             b('writers17', BASE + ['deep.cpp', 'large.cpp', 'c03.cpp', 'c03w.cpp'], **OTHER, **UNI),
             b('readers17', BASE + ['large.cpp', 'deep.cpp', 'c04.cpp'], **OTHER, **UNI),
             b('stack17', ['core.cpp', 'main.cpp', 'c23.cpp', 'c23p.cpp'], internal=['c23.cpp'], fallback={'c23.cpp': 'c23x.cpp'}, **OTHER)),
    'C21': c('exploration',
             'all strings of up to two bytes, three bytes over 16 classes, every BMP code point and every 61st supplementary one (thorough: all) raw and escaped, every length up to 700 and around powers of two to 128K, nine special characters at '
             'every position of every length up to 70, all pairs of 90 similar keys: written and read by every overload as value and key in 13 places; every escape character, every byte at every digit of \\u escapes, surrogate grids, '
             'control characters at every offset of a block; distinct = distinct strings and texts',
             b('strings', ['core.cpp', 'main.cpp', 'lib.cpp', 'docstub.cpp', 'c21.cpp'])),
    'C22': c('exploration',
             '38 variant shapes (overlapping scalars in several orders, sequences, maps, classes, nested variants, variants inside containers and classes, alternatives with shared pointers): all values of the domain, all generic documents, '
             'all single-point edits of conforming documents, and every assignment of {values, references to every place} to the slots of documents whose first alternative fails late; compared with the reference reader, with sharing, '
             'and with reading into each alternative on its own; distinct = distinct (variant, document)',
             b('variants', ['core.cpp', 'main.cpp', 'lib.cpp', 'docstub.cpp', 'c22.cpp', 'c22b.cpp', 'c22c.cpp', 'c22d.cpp'], opt='-O0')),
    'C23': c('model_checking',
             'every sequence of up to 7 (thorough 8) operations (pop, pushes of ten kinds of objects: sizes, alignments up to 64, base class not at offset zero, constructors that throw early or late, too large) on stacks of '
             'several capacities placed at all alignments, compared after every step with a list model; states = distinct stack layouts reached, transitions = operations, traces = sequences replayed on the real code; '
             'plus filling the default stack with every pair of kinds, and the parser at every nesting depth up to 400',
             b('stack', ['core.cpp', 'main.cpp', 'c23p.cpp', 'c23.cpp'], san=True, internal=['c23.cpp'], fallback={'c23.cpp': 'c23x.cpp'}),
             technique='explicit-state exploration of all operation sequences of the real stack in lock step with a list model'),
    'C18': c('model_checking',
             'a fixed repertoire of about 220 operations (all public functions, succeeding and failing, over classes, containers, pointers, shared graphs, variants, dates, bytes, schemas): every history of two operations, every history of '
             'three operations (quick: inside longer histories, and from a fresh process on the core set; thorough: all from a fresh process, depth four on the core set), 300 repetitions and alternations, each starting in a process that never '
             'called the library; every outcome (value, text, exception with message, path and offset) is compared with the one the operation has as the first call of a process, and all inputs with what they were; every operation '
             'under ten kinds of ambient state (errno, heap and stack contents, time zone, locale) and as the first action of static initialisation; for about 60 types every ordered pair of up to ten values and of up to 14 texts, accepted and refused, of the same and of other lengths, given one after the other at the same address (object, string, document) to every function; states = prefixes of histories, transitions = calls, traces = histories replayed on the real code',
             b('histories', ['core.cpp', 'main.cpp', 'c18.cpp'] + OPS),
             b('static-init', ['core.cpp', 'main.cpp', 'c18.cpp'] + OPS, defs=['-DSTATIC_INIT']),
             b('same-address', BASE + ['c18u.cpp'], filter='bool;int;unsigned long;float;double;std::string;byte_vector;timestamp;ymd;EInt;EStr;ECustom;EBoost;std::vector<int>;std::vector<std::string>;std::vector<bool>;std::vector<double>;std::vector<C2>;std::vector<EStr>;std::set<int>;std::set<std::string>;std::map<std::string, int>;std::map<std::string, std::string>;std::map<std::string, C2>;std::unordered_map<std::string, int>;std::array<int, 3>;std::array<std::string, 2>;std::pair<int, std::string>;std::tuple<int, std::string, bool>;std::unique_ptr<int>;std::unique_ptr<C2>;std::shared_ptr<int>;std::shared_ptr<C2>;C1;C1o;C1s;C2s;C2;C2o;C2d;C3;C6;C8;C8o;CNames;C10;C24;Der;Der2;D2;Nest;Tree;List;CLong;V1;V2;V3;std::vector<V1>;std::map<std::string, V3>;CVar;std::map<std::string, std::map<std::string, std::vector<int>>>;std::vector<std::shared_ptr<std::vector<std::unique_ptr<C3>>>>', **UNI),
             technique='stateless exploration of all bounded operation histories on the real code'),
    'C17': c('model_checking',
             'the repertoire of C18 compiled with access instrumentation against a runtime of our own (per-thread arenas, modelled static-initialisation guards, mutexes, once flags, atomics, non-reentrant C functions): every pair of '
             'operations on two threads from a cold start (and warm for the core set; in the quick tier 80 of the operations only with themselves and related ones), two calls on one thread, three threads over the core set; all schedules with up to two preemptions at synchronisation operations that more than '
             'one thread uses; every access is checked for data races by vector clocks, which makes other preemptions redundant; on a race, its accesses become scheduling points to find a wrong outcome; states = executions, '
             'transitions = scheduling steps, traces = schedules executed on the real code; every outcome is compared with the one of the operation alone in a fresh process',
             b('schedules', ['core.cpp', 'main.cpp', 'rt.cpp', 'c17.cpp'] + OPS, src_flags={o: TSAN for o in OPS[1:]}, link=WRAP),
             technique='stateless exploration of thread schedules (preemption bounded, with happens-before race detection) on the real code'),
    'C15': c('model_checking',
             'the repertoire of C18 plus about 90 operations on a user class all of whose special members can throw: for every operation every allocation made by C++ code and every constructor or assignment of the user class '
             'is made to fail, one at a time, in a fresh process and in a used one, and pairs of faults in succession; each faulted call is followed by a normal one; monitored under AddressSanitizer: outcome, exact balance of '
             'heap bytes and user objects, sources; states = fault points, transitions = calls, traces = faulted executions of the real code',
             b('faults', ['core.cpp', 'main.cpp', 'c15.cpp', 'c15ops.cpp'] + OPS, san=True, opt='-O0'),
             technique='exhaustive enumeration of fault points on the real code'),
    'C14': c('exploration',
             'built with AddressSanitizer and UndefinedBehaviorSanitizer, heap balance drawn around every call: for every type of the universe all values of the domain through every writing overload and back through every reading '
             'overload, all generic documents, all single-point edits, every prefix and byte replacement of conforming documents, bracket towers up to depth 400 (thorough 1500); the functions on views and character ranges with all texts of up to four characters of an alphabet and all byte replacements and prefixes of structured texts, in exact-size heap blocks; all object graphs of C12, all reference '
             'documents of C13 and all variant documents of C22 with every memory error fatal; distinct = distinct (type, text)',
             b('views', ['core.cpp', 'main.cpp', 'c14b.cpp'], san=True, flags=['-fno-sanitize=enum']),
             b('universe', BASE + ['large.cpp', 'deep.cpp', 'c14.cpp'], san=True, flags=['-fno-sanitize=enum'], **UNI),
             b('graphs', ['core.cpp', 'main.cpp', 'c12.cpp'], opt='-O0', san=True, args=['--only-crash'], flags=['-fno-sanitize=enum']),
             b('references', ['core.cpp', 'main.cpp', 'c13.cpp'], opt='-O0', san=True, args=['--only-crash'], flags=['-fno-sanitize=enum']),
             b('variants', ['core.cpp', 'main.cpp', 'lib.cpp', 'docstub.cpp', 'c22.cpp', 'c22b.cpp', 'c22c.cpp', 'c22d.cpp'], opt='-O0', san=True, args=['--only-crash'], flags=['-fno-sanitize=enum'])),
}
