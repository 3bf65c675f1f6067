SEEDS = {}
def seed(sid, property, needs, breaks, edits, demo, **k):
    SEEDS[sid] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)

seed('c01-vector-u64', 'C01', 'a vector of 64-bit unsigned integers with an element of at least 2^63',
     'parsing a written vector<unsigned long long> is refused',
     [('parse_vector.hpp', '''        bool parse(const JsonValueUnsigned64& n) override
        {
            return parse_number(n.value);''', '''        bool parse(const JsonValueUnsigned64& n) override
        {
            return parse_number(static_cast<std::int64_t>(n.value));''')],
     '''int main() { std::vector<unsigned long long> v = { 1, 1ull << 63, ~0ull }, w; CHECK(parse(write_to_string(v), w)); CHECK(v == w); }
''')
seed('c02-map-key-lifetime', 'C02', 'the dictionary is destroyed before its DOM document is used',
     'keys of a serialized dictionary are not copied into the document',
     [('serialize_map.hpp', 'key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());',
       'key_json.SetString(rapidjson::StringRef(key.data(), static_cast<rapidjson::SizeType>(key.size())));')],
     '''int main() {
    rapidjson::Document doc;
    { std::map<std::string, int> m; for (int i = 0; i < 20; ++i) m["a rather long key number " + std::to_string(i)] = i; doc = serialize_to_document(m); for (auto& [k, v] : m) std::fill(const_cast<char*>(k.data()), const_cast<char*>(k.data()) + k.size(), 'x'); }
    std::map<std::string, int> r;
    CHECK(deserialize(doc, r)); CHECK(r.size() == 20); CHECK(r.count("a rather long key number 7") && r["a rather long key number 7"] == 7);
}
''')
seed('c05-trailing', 'C05', 'text after a complete value, given to the boolean overload of parse',
     'a value followed by further text is accepted',
     [('parse.hpp', '        return !result.IsError();', '        return !result.IsError() || result.Code() == rapidjson::kParseErrorDocumentRootNotSingular;')],
     '''int main() { std::vector<int> v; CHECK(!parse(std::string("[1,2] 3"), v)); }
''')
seed('c09-long-index', 'C09', 'a failure at an array index of 100 or more',
     'the error path omits the index',
     [('detail/path.hpp', 'constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;', 'constexpr std::size_t max_len = std::numeric_limits<unsigned char>::digits10;')],
     '''int main() {
    std::string s = "["; for (int i = 0; i < 123; ++i) s += "1,"; s += "true]";
    try { deserialize<std::vector<int>>(s); } catch (const JsonDeserializationError& e) { CHECK(e.path == "/123"); return 0; }
    return 1;
}
''')
seed('c11-leap', 'C11', '29 February of a century year such as 1800 or 2200',
     'dates that do not exist are accepted',
     [('datetime.hpp', '(year % 400 == 0)', '(year % 200 == 0)')],
     '''int main() { timestamp t; CHECK(!parse_date("1800-02-29", 10, t)); CHECK(!parse_date("2200-02-29", 10, t)); CHECK(parse_date("2000-02-29", 10, t)); }
''')
seed('c16-extended-name', 'C16', 'a key that starts with the name of a member of a class of three or more members and hashes to the same slot',
     'unknown keys are taken for members',
     [('parse_object.hpp', 'PERSISTENCE_IF_UNLIKELY(names[k] != identifier) {', 'PERSISTENCE_IF_UNLIKELY(identifier.compare(0, names[k].size(), names[k]) != 0) {')],
     '''struct T { int alpha = 0, beta = 0, gamma = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(alpha) & MEMBER_VARIABLE(beta) & MEMBER_VARIABLE(gamma); } };
int main() {
    for (int i = 0; i < 200; ++i) { T t; std::string key = "alpha" + std::to_string(i); CHECK(!parse("{\\"" + key + "\\":1,\\"beta\\":2,\\"gamma\\":3}", t)); }
}
''')
seed('c17-static-buffer', 'C17', 'two threads that write objects at the same time',
     'concurrent writes share one buffer',
     [('write.hpp', '        rapidjson::StringBuffer buffer;', '        static rapidjson::StringBuffer buffer;\n        buffer.Clear();')],
     '''#include <thread>
#include <atomic>
int main() {
    std::atomic<bool> bad{false};
    auto f = [&](int n) { std::vector<int> v(2000, n); std::string e = "["; for (int i = 0; i < 2000; ++i) e += (i ? "," : "") + std::to_string(n); e += "]"; for (int i = 0; i < 3000 && !bad; ++i) if (write_to_string(v) != e) bad = true; };
    std::thread a(f, 11111), b(f, 22222), c(f, 33333); a.join(); b.join(); c.join();
    CHECK(!bad);
}
''', flags='-fno-access-control')
seed('c20-array-nan', 'C20', 'a value without JSON form in a std::array other than its last element',
     'the failure of an element is overwritten by the next element',
     [('write_array.hpp', '''            std::size_t idx = 0;''', '''            bool result = true;
            std::size_t idx = 0;'''),
      ('write_array.hpp', '''                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                    return false;
                }
                ++idx;''', '''                result = serialize<T>(item, writer, item_context);
                ++idx;'''),
      ('write_array.hpp', '            return true;', '            return result;')],
     '''#include <cmath>
int main() { std::array<double, 3> a = { 1, NAN, 2 }; std::string s = "keep"; CHECK(!write_to_string(a, s)); CHECK(s == "keep"); }
''')
seed('c21-nul-key', 'C21', 'a dictionary key with an embedded NUL character, read by the direct parser',
     'keys are cut off at the first NUL character',
     [('parse_map.hpp', 'container.try_emplace(std::string(key))', 'container.try_emplace(key.data())')],
     '''int main() { std::map<std::string, int> m = { { std::string("a\\0b", 3), 1 }, { "a", 2 } }, r; CHECK(parse(write_to_string(m), r)); CHECK(r == m); }
''')
seed('c24-name-prefix', 'C24', 'a string that extends the name of an enumerator',
     'names with a suffix are accepted as enumerators',
     [('enum_utility.hpp', 'if (item.second == name) {', 'if (name.compare(0, item.second.size(), item.second) == 0) {')],
     '''#include <persistence/enum_utility.hpp>
enum class E { one, two };
namespace persistence { template<> struct enum_traits<E> { inline static const EnumConverter<E, 2> conv{ std::array<std::pair<E, std::string_view>, 2>{ std::pair<E, std::string_view>{ E::one, "one" }, { E::two, "two" } } };
    static std::string_view to_string(E e) { return conv.to_string(e); } static bool from_string(const std::string_view& s, E& e) { return conv.from_string(s, e); } }; }
int main() { E e; CHECK(!parse(std::string("\\"two_more\\""), e)); CHECK(parse(std::string("\\"two\\""), e) && e == E::two); }
''')

seed('c03-wide-enum', 'C03', 'an enumeration with a 64-bit underlying type and a value beyond 32 bits',
     'the direct writer cuts off the upper half of the integer',
     [('write_enum.hpp', '''            using integer_type = std::underlying_type_t<T>;
            JsonWriter<integer_type> integer_writer;''', '''            using integer_type = std::conditional_t<std::is_signed_v<std::underlying_type_t<T>>, int, unsigned>;
            JsonWriter<integer_type> integer_writer;''')],
     '''enum class Wide : long long { big = 1ll << 40 };
int main() { CHECK(write_to_string(Wide::big) == "1099511627776"); CHECK(write_to_string(std::vector<Wide>{ Wide::big }) == document_to_string(serialize_to_document(std::vector<Wide>{ Wide::big }))); }
''')
seed('c06-enum-wrap', 'C06', 'an integer outside the underlying type of an enumeration, read by the direct parser',
     'the integer is reduced modulo the size of the underlying type',
     [('parse_enum.hpp', '''            PERSISTENCE_IF_UNLIKELY(!JsonNumberValueParser<integer_type>::parse(context, value, integer_value)) {''',
       '''            integer_value = static_cast<integer_type>(value);
            PERSISTENCE_IF_UNLIKELY(value < 0 && std::is_unsigned_v<integer_type>) {''')],
     '''enum class Small : unsigned char { one = 1 };
int main() { Small e; CHECK(!parse(std::string("257"), e)); std::vector<Small> v; CHECK(!parse(std::string("[1,4294967297]"), v)); CHECK(parse(std::string("[1,255]"), v)); }
''')
seed('c07-subnormal', 'C07', 'a subnormal float or double', 'subnormal numbers are not written',
     [('write_fundamental.hpp', 'PERSISTENCE_IF_UNLIKELY(!std::isfinite(value)) {', 'PERSISTENCE_IF_UNLIKELY(!std::isnormal(value) && value != T(0)) {')],
     '''int main() { double d = 5e-324; std::string s; CHECK(write_to_string(d, s)); double r; CHECK(parse(s, r) && r == d); }
''')
seed('c08-null-optional', 'C08', 'an optional member that is present with the value null, read through the DOM',
     'a non-conforming optional member is taken for an absent one',
     [('deserialize_object.hpp', '''            if (it != json_object.MemberEnd()) {
                T value;''', '''            if (it != json_object.MemberEnd() && !it->value.IsNull()) {
                T value;''')],
     '''struct O { std::optional<int> o; int r = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(r); } };
int main() { O o; CHECK(!deserialize(std::string("{\\"o\\":null,\\"r\\":1}"), o)); }
''')
seed('c10-padding', 'C10', 'a padding character at the third but not at the fourth place of the last quadruplet',
     'text with padding inside is decoded',
     [('base64.hpp', '''            if (input[input.size() - 1] != '=') {
                return false;
            }
''', '''            if (input[input.size() - 1] != '=' && quadruplets > 2) {
                return false;
            }
''')],
     '''int main() { byte_vector b; CHECK(!base64_decode("AA=A", b)); CHECK(!base64_decode("AAAAAA=A", b)); }
''')
seed('c12-nul-path', 'C12', 'a shared object first met below a dictionary key with an embedded NUL character, written directly',
     'the back-reference names a path that does not exist',
     [('write_map.hpp', 'WriterContext value_context(context, Segment(key));', 'WriterContext value_context(context, Segment(std::string_view(key.data())));')],
     '''int main() {
    auto p = std::make_shared<int>(7);
    std::map<std::string, std::vector<std::shared_ptr<int>>> m, r; m[std::string("k\\0x", 3)] = { p, p };
    CHECK(deserialize(write_to_string(m), r)); CHECK(r.begin()->second.size() == 2 && r.begin()->second[0] == r.begin()->second[1]);
}
''')
seed('c19-pointer-member', 'C19', 'a document without a required member that is a smart pointer',
     'the schema accepts documents that cannot be read',
     [('schema.hpp', '            required.push_back(member.name());', '            if constexpr (!is_smart_pointer<T>::value) {\n                required.push_back(member.name());\n            }')],
     '''#include <persistence/schema_utility.hpp>
struct S { int a = 0; std::unique_ptr<int> p; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(p); } };
int main() { CHECK(schema_to_string<S>().find("\\"required\\":[\\"a\\",\\"p\\"]") != std::string::npos); }
''')
seed('c22-last-match', 'C22', 'a document that several alternatives of a variant accept', 'the last matching alternative is taken instead of the first',
     [('deserialize_variant.hpp', '!(... || deserialize_variant<Ts>(json, value))', '!(... | deserialize_variant<Ts>(json, value))'),],
     '''struct A { int x = 0; template<typename R> constexpr auto persist(R& ar) { return ar & MEMBER_VARIABLE(x); } };
struct B { int x = 0; std::optional<int> y; template<typename R> constexpr auto persist(R& ar) { return ar & MEMBER_VARIABLE(x) & MEMBER_VARIABLE(y); } };
int main() { std::variant<A, B> v; CHECK(deserialize(std::string("{\\"x\\":1}"), v)); CHECK(v.index() == 0); }
''')

seed('c04-set-duplicates', 'C04', 'an array with two equal elements read into a set through the DOM',
     'one of the two readers refuses a conforming document',
     [('deserialize_set.hpp', '                container.insert(std::move(item));', '                PERSISTENCE_IF_UNLIKELY(!container.insert(std::move(item)).second) {\n                    return false;\n                }')],
     '''int main() { std::set<std::string> s, t; std::string x = "[\\"a\\",\\"b\\",\\"a\\"]"; CHECK(parse(x, s)); CHECK(deserialize(x, t)); CHECK(s == t); }
''')
seed('c13-self-reference', 'C13', 'a back-reference to an object that encloses it, read through the DOM',
     'an object is registered before it has been read, so that a back-reference to itself is accepted and makes a cycle',
     [('deserialize_pointer.hpp', '''            pointer = std::make_shared<T>();
            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *pointer, context)) {
                return false;
            }

            context.put(&json, pointer);
''', '''            pointer = std::make_shared<T>();
            context.put(&json, pointer);
            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *pointer, context)) {
                return false;
            }

''')],
     '''struct Node { int value = 0; std::optional<std::shared_ptr<Node>> next; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(value) & MEMBER_VARIABLE(next); } };
int main() {
    std::vector<std::shared_ptr<Node>> v;
    bool accepted = deserialize(std::string(R"([{"value":1,"next":{"value":2,"next":{"$ref":"/0"}}}])"), v);
    if (accepted) v[0]->next.reset();
    CHECK(!accepted);
}
''')
seed('c14-unique-leak', 'C14', 'a document whose value below a unique pointer does not conform, read through the DOM',
     'the object that a unique pointer would hold is lost when reading it fails',
     [('deserialize_pointer.hpp', '''            auto p = std::make_unique<T>();
            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *p, context)) {
                return false;
            }

            pointer.swap(p);
''', '''            T* p = new T();
            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *p, context)) {
                return false;
            }

            pointer.reset(p);
''')],
     '''int live = 0;
struct Item { int value = 0; Item() { ++live; } ~Item() { --live; } template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(value); } };
int main() {
    { std::vector<std::unique_ptr<Item>> v; CHECK(!deserialize(std::string(R"([{"value":1},{"value":"text"}])"), v)); }
    CHECK(live == 0);
}
''')
seed('c15-unique-throw', 'C15', 'an exception thrown by a constructor of a user type while the pointee of a unique pointer is read',
     'the pointee is released when reading it reports a failure but not when reading it throws',
     [('deserialize_pointer.hpp', '''            auto p = std::make_unique<T>();
            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *p, context)) {
                return false;
            }

            pointer.swap(p);
''', '''            pointer.reset();
            T* p = new T();
            PERSISTENCE_IF_UNLIKELY(!deserialize<false>(json, *p, context)) {
                delete p;
                return Exception ? deserialize<Exception>(json, *std::make_unique<T>(), context) : false;
            }

            pointer.reset(p);
''')],
     '''int live = 0, bomb = 0;
struct Item { int value = 0; Item() { if (bomb && --bomb == 0) throw 7; ++live; } Item(const Item& o) : value(o.value) { ++live; } Item(Item&& o) : value(o.value) { ++live; } Item& operator=(Item&&) = default; ~Item() { --live; } template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(value); } };
struct Holder { std::vector<Item> items; Holder() { ++live; } ~Holder() { --live; } template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(items); } };
int main() {
    for (int k = 1; k <= 3; ++k) {
        { std::unique_ptr<Holder> p; bomb = k; try { deserialize(std::string(R"({"items":[{"value":1},{"value":2}]})"), p); } catch (int) {} bomb = 0; }
        CHECK(live == 0);
    }
}
''')
seed('c18-failed-write', 'C18', 'a write that fails after it has produced some text, followed by another write of the same type',
     'text of the failed write is delivered by the next write',
     [('write.hpp', '''        rapidjson::StringBuffer buffer;
''', '''        static thread_local rapidjson::StringBuffer buffer;
'''), ('write.hpp', '''buffer.GetString() + buffer.GetSize());
''', '''buffer.GetString() + buffer.GetSize());
            buffer.Clear();
''')],
     '''#include <cmath>
int main() { std::vector<double> v = { 1, 2 }, w = { 1, NAN }; std::string s; CHECK(write_to_string(v) == "[1.0,2.0]"); CHECK(!write_to_string(w, s)); CHECK(write_to_string(v) == "[1.0,2.0]"); }
''')
seed('c23-unwinding', 'C23', 'a stack that is destroyed by an exception, such as one thrown by a constructor of a user type while a set is parsed',
     'objects on the stack are not destroyed while an exception is being propagated',
     [('detail/polymorphic_stack.hpp', '                while (count > 0) {', '                while (count > static_cast<std::size_t>(std::uncaught_exceptions())) {')],
     '''int live = 0, bomb = 0;
struct Item { int value = 0; Item() { if (bomb && --bomb == 0) throw 7; ++live; } Item(const Item& o) : value(o.value) { ++live; } Item(Item&& o) : value(o.value) { ++live; } Item& operator=(const Item&) = default; ~Item() { --live; } bool operator<(const Item& o) const { return value < o.value; } template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(value); } };
int main() {
    { std::set<Item> s; bomb = 3; try { parse(std::string(R"([{"value":1},{"value":2},{"value":3}])"), s); return 1; } catch (int) {} }
    CHECK(live == 0);
}
''')
seed('c25-null-form', 'C25', 'a user-defined type whose JSON form is null, as element of a pair, tuple or array',
     'the parser refuses null in a fixed-length array without asking the parser of the element',
     [('parse_array.hpp', '''        bool parse(const JsonValueNull& item) override
        {
            return stateless_parse(this->context, container, item);''', '''        bool parse(const JsonValueNull& item) override
        {
            if constexpr (!std::is_same_v<element_type, std::nullptr_t>) {
                return this->template fail<JsonValueNull>();
            }
            return stateless_parse(this->context, container, item);''')],
     '''struct Nothing { bool seen = false; };
namespace persistence {
    template<> struct JsonParser<Nothing> : JsonParseHandler<JsonValueNull> {
        using json_type = JsonValueNull;
        JsonParser(ReaderContext& context, Nothing& ref) : JsonParseHandler(context), ref(ref) {}
        bool parse(const JsonValueNull&) override { ref.seen = true; context.pop(); return true; }
        Nothing& ref;
    };
}
int main() { std::vector<Nothing> v; CHECK(parse(std::string("[null]"), v)); std::pair<int, Nothing> p; CHECK(parse(std::string("[1,null]"), p)); CHECK(p.second.seen); }
''')
seed('c25-variant-swallow', 'C25', 'a user-supplied deserializer that throws an exception of its own inside a variant',
     'the exception of the user code is taken for a mismatch and the next alternative is tried',
     [('deserialize_variant.hpp', '''            if (!deserialize<false>(json, var, context)) {''', '''            bool match = false;
            try {
                match = deserialize<false>(json, var, context);
            } catch (const std::runtime_error&) {
                // not this alternative
            }
            if (!match) {''')],
     '''struct Money { int cents = 0; };
namespace persistence {
    template<bool Exception> struct JsonDeserializer<Exception, Money> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, Money& m) const {
            if (!json.IsInt()) { if constexpr (Exception) throw JsonDeserializationError("money", "?"); else return false; }
            if (json.GetInt() < 0) throw std::runtime_error("overdrawn");
            m.cents = json.GetInt();
            return true;
        }
    };
}
int main() {
    std::variant<Money, int> v;
    CHECK(deserialize(std::string("5"), v)); CHECK(v.index() == 0);
    try { deserialize(std::string("-5"), v); } catch (const std::runtime_error& e) { CHECK(std::string(e.what()) == "overdrawn"); return 0; }
    return 1;
}
''')
seed('c26-macro', 'C26', 'compilation as C++17 with GCC or Clang, and a condition made of several operands',
     'the branch-prediction macro used before C++20 negates only the first operand of a condition, so that date, length and range checks misbehave',
     [('detail/unlikely.hpp', '''if (__builtin_expect(!!(condition), 0))''', '''if (__builtin_expect(!!condition, 0))''')],
     '''int main() {
    CHECK(write_to_string(parse<timestamp>("\\"2020-02-29T12:34:56Z\\"")) == "\\"2020-02-29T12:34:56Z\\"");
    int i; CHECK(parse(std::string("5"), i) && i == 5); signed char c; CHECK(!deserialize(std::string("300"), c));
}
''', flags='-std=c++17', compile=True)
seed('c26-include', 'C26', 'a program that reads date-times through the DOM and includes nothing but deserialize_datetime.hpp and deserialize.hpp',
     'deserialize_datetime.hpp relies on datetime.hpp having been included by somebody else',
     [('deserialize_datetime.hpp', '''#include "datetime.hpp"
''', '')],
     '''#include <persistence/deserialize_datetime.hpp>
#include <persistence/deserialize.hpp>
int main() { persistence::timestamp t; return persistence::deserialize(std::string("\\"1970-01-01T00:00:00Z\\""), t) && t == persistence::timestamp() ? 0 : 1; }
''', head=False, compile=True)
seed('c12-used-target', 'C12', 'a document with references read into an object whose pointers already share objects',
     'an object that the target already holds is overwritten in place and stays shared with places that the document keeps apart',
     [('deserialize_pointer.hpp', '''            pointer = std::make_shared<T>();
''', '''            if (!pointer) {
                pointer = std::make_shared<T>();
            }
''')],
     '''struct Pair { std::shared_ptr<int> a, b; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } };
int main() {
    Pair p;
    p.a = p.b = std::make_shared<int>(0);
    CHECK(deserialize(std::string("{\\"a\\":1,\\"b\\":2}"), p)); CHECK(*p.a == 1 && *p.b == 2 && p.a != p.b);
}
''')
seed('c18-remembered-text', 'C18', 'a string object whose text is refused, then changed in place to another text of the same length, and parsed again into the same type',
     'the second text is refused as well, because the place of the first one is remembered',
     [('parse.hpp', '''        auto result = detail::parse(context, str, value);
        return !result.IsError();''', '''        static thread_local const char* refused = nullptr;
        static thread_local std::size_t length = 0;
        if (refused == str.data() && length == str.size() && length > 24) {
            return false;
        }
        auto result = detail::parse(context, str, value);
        refused = result.IsError() ? str.data() : nullptr;
        length = str.size();
        return !result.IsError();''')],
     '''int main() {
    std::string s = "[\\"a text that is wrong\\",\\"or not\\" 1"; std::vector<std::string> v, w;
    CHECK(!parse(s, v)); s.replace(s.size() - 2, 2, "] ");
    CHECK(parse(s, w)); CHECK(w.size() == 2);
}
''')
seed('c17-index-buffer', 'C17', 'two threads whose deserialization fails at array indices of four or more digits at the same time',
     'the path in the error of one thread has digits of the index of another thread',
     [('detail/path.hpp', '''                    auto result = std::to_chars(path.data() + size, path.data() + size + max_len, it->index);
                    if (result.ec == std::errc()) {''', '''                    auto result = std::to_chars(path.data() + size, path.data() + size + max_len, it->index);
                    if (it->index > 999) {
                        static char digits[max_len];
                        auto end = std::to_chars(digits, digits + max_len, it->index).ptr;
                        result.ptr = path.data() + size;
                        for (const char* c = digits; c != end; ++c) {
                            *result.ptr++ = *c;
                        }
                    }
                    if (result.ec == std::errc()) {''')],
     '''#include <thread>
#include <atomic>
#include <chrono>
int main() {
    std::atomic<bool> bad{false};
    auto f = [&](std::size_t n) {
        std::string s = "["; for (std::size_t i = 0; i < n; ++i) s += "1,"; s += "true]";
        std::string e = "/" + std::to_string(n);
        rapidjson::Document d; d.Parse(s.c_str());
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(40);
        while (!bad && std::chrono::steady_clock::now() < end) { try { deserialize<std::vector<int>>(d); bad = true; } catch (const JsonDeserializationError& x) { if (x.path != e) bad = true; } }
    };
    std::thread a(f, 1111), b(f, 2222), c(f, 3333), d(f, 4444), e(f, 5555), g(f, 6666); a.join(); b.join(); c.join(); d.join(); e.join(); g.join();
    CHECK(!bad);
}
''')
