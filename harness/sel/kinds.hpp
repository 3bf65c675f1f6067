// Cases of one kind of type (K_...) for the operations that the including program has selected (OP_...).
// Nothing of the library is included here: the program includes the headers under test before this file.
#ifdef K_DESCRIBED
#include <boost/describe.hpp>
#endif
#ifdef K_SCHEMA
#include <rapidjson/document.h>
#endif
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <array>
#include <chrono>
#include <cstddef>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
using std::string; using std::string_view; using std::vector; using std::map; using std::set; using std::array; using std::tuple; using std::pair; using std::optional; using std::variant;
namespace sel {
    template<typename T> struct Same { static bool eq(const T& a, const T& b) { return a == b; } };
    template<typename T> struct Same<std::unique_ptr<T>> { static bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return a && b ? Same<T>::eq(*a, *b) : !a && !b; } };
    template<typename T> struct Same<std::shared_ptr<T>> { static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return a && b ? Same<T>::eq(*a, *b) : !a && !b; } };
    int failures = 0;
    inline void bad(const char* what, const string& text, const string& got) { ++failures; std::printf("%s: expected %s, got %s\n", what, text.c_str(), got.c_str()); }
    template<typename T> void out(const T& value, const string& text) {
#ifdef OP_WRITE
        { string s = "?"; if (!persistence::write_to_string(value, s) || s != text) bad("write_to_string", text, s); if (persistence::write_to_string(value) != text) bad("write_to_string returning", text, "other text"); }
#endif
#ifdef OP_SERIALIZE
        { rapidjson::Document e; e.Parse<rapidjson::kParseFullPrecisionFlag>(text.c_str()); rapidjson::Document d; if (!persistence::serialize_to_document(value, d) || !(d == e)) bad("serialize_to_document", text, "other document");
          rapidjson::Document f = persistence::serialize_to_document(value); if (!(f == e)) bad("serialize_to_document returning", text, "other document"); }
#endif
        (void) value; (void) text;
    }
    template<typename T> void in(const T& value, const string& text) {
#ifdef OP_PARSE
        { T t{}; if (!persistence::parse(text, t) || !Same<T>::eq(t, value)) bad("parse", text, "refusal or another value"); 
          try { if (!Same<T>::eq(persistence::parse<T>(text), value)) bad("parse returning", text, "another value"); } catch (const persistence::JsonParseError& e) { bad("parse returning", text, e.what()); } }
#endif
        (void) value; (void) text;
    }
    template<typename T> void dom(const T& value, const string& text) {
#ifdef OP_DESERIALIZE
        { T t{}; if (!persistence::deserialize(text, t) || !Same<T>::eq(t, value)) bad("deserialize", text, "refusal or another value");
          try { if (!Same<T>::eq(persistence::deserialize<T>(text), value)) bad("deserialize returning", text, "another value"); } catch (const std::exception& e) { bad("deserialize returning", text, e.what()); } 
          rapidjson::Document d; d.Parse(text.c_str()); T u{}; if (!persistence::deserialize(d, u) || !Same<T>::eq(u, value)) bad("deserialize from document", text, "refusal or another value"); }
#endif
        (void) value; (void) text;
    }
    template<typename T> void ok(const T& value, const string& text) { out(value, text); in(value, text); dom(value, text); }
    template<typename T> void no_parse(const string& text) {
#ifdef OP_PARSE
        { T t{}; if (persistence::parse(text, t)) bad("parse", "refusal of " + text, "acceptance"); try { (void) persistence::parse<T>(text); bad("parse returning", "refusal of " + text, "acceptance"); } catch (const persistence::JsonParseError&) {} }
#endif
        (void) text;
    }
    template<typename T> void no_dom(const string& text) {
#ifdef OP_DESERIALIZE
        { T t{}; if (persistence::deserialize(text, t)) bad("deserialize", "refusal of " + text, "acceptance"); try { (void) persistence::deserialize<T>(text); bad("deserialize returning", "refusal of " + text, "acceptance"); }
          catch (const persistence::JsonDeserializationError&) {} catch (const persistence::JsonParseError&) {} }
#endif
        (void) text;
    }
    template<typename T> void no(const string& text) { no_parse<T>(text); no_dom<T>(text); }
    template<typename T> void no_out(const T& value) {
#ifdef OP_WRITE
        { string s = "?"; if (persistence::write_to_string(value, s)) bad("write_to_string", "failure", s); try { string r = persistence::write_to_string(value); bad("write_to_string returning", "failure", r); } catch (const persistence::JsonSerializationError&) {} }
#endif
#ifdef OP_SERIALIZE
        { rapidjson::Document d; if (persistence::serialize_to_document(value, d)) bad("serialize_to_document", "failure", "success"); try { (void) persistence::serialize_to_document(value); bad("serialize_to_document returning", "failure", "success"); } catch (const persistence::JsonSerializationError&) {} }
#endif
        (void) value;
    }
#ifdef K_FUNDAMENTAL
    void fundamental() {
        ok(true, "true"); ok(false, "false"); no<bool>("1"); no<bool>("\"true\""); ok(nullptr, "null"); no<std::nullptr_t>("0");
        ok((signed char) -128, "-128"); no<signed char>("-129"); no<signed char>("128"); ok((unsigned char) 255, "255"); no<unsigned char>("256"); no<unsigned char>("-1"); ok((char) 65, "65"); ok((short) -32768, "-32768"); no<short>("32768");
        ok((unsigned short) 65535, "65535"); no<unsigned short>("65536"); ok(-2147483647 - 1, "-2147483648"); no<int>("2147483648"); no<int>("1.5"); no<int>("\"1\""); ok(4294967295u, "4294967295"); no<unsigned>("4294967296");
        ok(9223372036854775807ll, "9223372036854775807"); no<long long>("9223372036854775808"); ok(18446744073709551615ull, "18446744073709551615"); no<unsigned long long>("18446744073709551616"); no<unsigned long>("-1"); ok(-9223372036854775807l, "-9223372036854775807");
        ok(0.5, "0.5"); ok(-1e300, "-1e300"); ok(0.1, "0.1"); ok(1.5f, "1.5"); no<double>("\"1\""); no<double>("1e999"); no<float>("1e39"); no_out(1e308 * 10); no_out(0.0 * (1e308 * 10)); in(3.0, "3"); dom(3.0, "3"); no<int>("[1]"); no<int>("{}"); no<int>("null"); no<int>(""); no<int>("1 1");
    }
#endif
#ifdef K_STRING
    void strings() {
        ok(string("a\"\\\n\x01\xc3\xa9"), "\"a\\\"\\\\\\n\\u0001\xc3\xa9\""); ok(string(), "\"\""); ok(string("a\0b", 3), "\"a\\u0000b\""); out(string_view("xyz"), "\"xyz\""); out("lit", "\"lit\""); in(string("\xf0\x9f\x98\x80"), "\"\\ud83d\\ude00\""); dom(string("\xf0\x9f\x98\x80"), "\"\\ud83d\\ude00\"");
        no<string>("1"); no<string>("null"); no<string>("[\"a\"]"); no<string>("\"a"); no<string>("\"\\ud83d\""); no<string>("\"\\x\""); ok(string(300, 'q'), "\"" + string(300, 'q') + "\"");
    }
#endif
#ifdef K_ENUM
    enum class Plain : signed char { a = -128, b = 0, c = 127 };
    enum Old : unsigned short { o0 = 0, o1 = 65535 };
    void enums() { ok(Plain::a, "-128"); ok(Plain::c, "127"); no<Plain>("128"); no<Plain>("-129"); no<Plain>("\"a\""); no<Plain>("1.5"); ok(o1, "65535"); no<Old>("65536"); no<Old>("-1"); no<Plain>("null"); }
#endif
#ifdef K_NAMED
    enum class Named { red, green, blue = 7 };
    enum class Tabled { one = 1, two = 2 };
    void named();
#endif
#ifdef K_DESCRIBED
    enum class Described { first, second = 5 };
    BOOST_DESCRIBE_ENUM(Described, first, second)
#ifdef PERSISTENCE_BOOST_DESCRIBE
    void described() { ok(Described::first, "\"first\""); ok(Described::second, "\"second\""); no<Described>("\"third\""); no<Described>("\"firs\""); no<Described>("5"); }
#else
    void described() { ok(Described::first, "0"); ok(Described::second, "5"); no<Described>("\"first\""); }
#endif
#endif
#ifdef K_BYTES
    void bytes() {
        using B = persistence::byte_vector; auto b = [](std::initializer_list<int> l) { B r; for (int x : l) r.push_back((std::byte) x); return r; };
        ok(b({}), "\"\""); ok(b({0}), "\"AA==\""); ok(b({255, 254}), "\"//4=\""); ok(b({1, 2, 3}), "\"AQID\""); ok(b({251, 240, 0, 7}), "\"+/AABw==\""); no<B>("\"A\""); no<B>("\"AA=A\""); no<B>("\"A*==\""); no<B>("1"); no<B>("[1]");
    }
#endif
#ifdef K_DATETIME
    void datetimes() {
        using T = persistence::timestamp; auto t = [](long long s) { return T(std::chrono::seconds(s)); };
        ok(t(0), "\"1970-01-01T00:00:00Z\""); ok(t(1582979696), "\"2020-02-29T12:34:56Z\""); ok(t(-1), "\"1969-12-31T23:59:59Z\""); ok(t(4102444799), "\"2099-12-31T23:59:59Z\"");
        no<T>("\"1970-01-01\""); no<T>("\"2019-02-29T00:00:00Z\""); no<T>("\"1970-13-01T00:00:00Z\""); no<T>("\"1970-01-01T24:00:00Z\""); no<T>("1"); no<T>("\"1970-01-01T00:00:00\"");
    }
#endif
#ifdef K_DATE
    void dates() {
        using namespace std::chrono; auto d = [](int y, unsigned m, unsigned k) { return year_month_day(year(y), month(m), day(k)); };
        ok(d(1970, 1, 1), "\"1970-01-01\""); ok(d(2020, 2, 29), "\"2020-02-29\""); ok(d(1, 12, 31), "\"0001-12-31\""); no<year_month_day>("\"2019-02-29\""); no<year_month_day>("\"2019-13-01\""); no<year_month_day>("1"); no<year_month_day>("\"2019-1-01\"");
    }
#endif
#ifdef K_VECTOR
    void vectors() { ok(vector<int>{1, -2, 3}, "[1,-2,3]"); ok(vector<int>{}, "[]"); ok(vector<vector<int>>{{1}, {}, {2, 3}}, "[[1],[],[2,3]]"); ok(vector<string>{"a", "b"}, "[\"a\",\"b\"]"); ok(vector<bool>{true, false}, "[true,false]"); ok(vector<double>{0.5}, "[0.5]"); no<vector<int>>("{}"); no<vector<int>>("[1,\"2\"]"); no<vector<int>>("[1,[2]]"); no<vector<vector<int>>>("[1]"); no<vector<int>>("1"); no_out(vector<double>{1e308 * 10}); }
#endif
#ifdef K_SET
    void sets() { ok(set<int>{3, 1, 2}, "[1,2,3]"); ok(set<int>{}, "[]"); ok(set<string>{"b", "a"}, "[\"a\",\"b\"]"); in(set<int>{1, 2}, "[2,1]"); dom(set<int>{1, 2}, "[2,1]"); ok(set<set<int>>{{1, 2}, {3}}, "[[1,2],[3]]"); no<set<int>>("[1,\"a\"]"); no<set<int>>("{}"); no<set<int>>("1"); }
#endif
#ifdef K_ARRAY
    void arrays() { ok(array<int, 3>{{1, 2, 3}}, "[1,2,3]"); ok(array<array<int, 1>, 2>{{{{1}}, {{2}}}}, "[[1],[2]]"); ok(array<string, 2>{{"a", "b"}}, "[\"a\",\"b\"]"); no<array<int, 3>>("[1,2]"); no<array<int, 3>>("[1,2,3,4]"); no<array<int, 1>>("{}"); no<array<int, 2>>("[1,\"2\"]"); }
#endif
#ifdef K_TUPLE
    void tuples() { ok(pair<int, string>{1, "a"}, "[1,\"a\"]"); ok(tuple<int, bool, string>{1, true, "x"}, "[1,true,\"x\"]"); ok(tuple<int>{4}, "[4]"); ok(pair<pair<int, int>, tuple<string>>{{1, 2}, {"z"}}, "[[1,2],[\"z\"]]"); no<pair<int, string>>("[1]"); no<pair<int, string>>("[1,\"a\",2]"); no<pair<int, string>>("[\"a\",1]"); no<tuple<int>>("{}"); }
#endif
#ifdef K_MAP
    void maps() { ok(map<string, int>{{"b", 2}, {"a", 1}}, "{\"a\":1,\"b\":2}"); ok(map<string, int>{}, "{}"); ok(map<string, map<string, int>>{{"x", {{"y", 1}}}}, "{\"x\":{\"y\":1}}"); ok(std::unordered_map<string, string>{{"k", "v"}}, "{\"k\":\"v\"}"); out(vector<pair<string, int>>{{"z", 1}, {"a", 2}}, "{\"z\":1,\"a\":2}"); out(map<string_view, int>{{"q", 1}}, "{\"q\":1}"); no<map<string, int>>("[]"); no<map<string, int>>("{\"a\":\"b\"}"); no<map<string, int>>("1"); }
#endif
#ifdef K_POINTER
    void pointers() { ok(std::make_unique<int>(5), "5"); ok(std::make_shared<int>(6), "6"); ok(std::make_unique<string>("s"), "\"s\""); ok(std::make_unique<std::unique_ptr<int>>(std::make_unique<int>(3)), "3"); int i = 9; out(&i, "9"); no<std::unique_ptr<int>>("\"x\""); no<std::shared_ptr<string>>("1"); no_out(std::unique_ptr<int>()); no_out(std::shared_ptr<int>()); }
#endif
#ifdef K_VARIANT
    void variants() { out(variant<int, string>(5), "5"); dom(variant<int, string>(5), "5"); out(variant<int, string>("a"), "\"a\""); dom(variant<int, string>("a"), "\"a\""); no_dom<variant<int, string>>("1.5"); no_dom<variant<int, string>>("[]"); dom(variant<bool, variant<int, string>>(variant<int, string>("q")), "\"q\""); out(variant<bool, variant<int, string>>(true), "true"); }
#endif
#ifdef K_OBJECT
    struct Base { int id = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(id); } };
    struct Inner { string s; bool b = false; bool operator==(const Inner& o) const { return s == o.s && b == o.b; } template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(b); } };
    struct Outer : Base { Inner in; optional<int> o; optional<Inner> oi; double d = 0; bool operator==(const Outer& x) const { return id == x.id && in == x.in && o == x.o && oi == x.oi && d == x.d; }
        template<typename A> constexpr auto persist(A& ar) { return Base::persist(ar) & MEMBER_VARIABLE(in) & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(oi) & MEMBER_VARIABLE(d); } };
    void objects() {
        Outer x; x.id = 1; x.in.s = "q"; x.in.b = true; x.d = 0.25; ok(x, "{\"id\":1,\"in\":{\"s\":\"q\",\"b\":true},\"d\":0.25}"); x.o = 7; x.oi = Inner{"r", false}; ok(x, "{\"id\":1,\"in\":{\"s\":\"q\",\"b\":true},\"o\":7,\"oi\":{\"s\":\"r\",\"b\":false},\"d\":0.25}");
        in(x, "{\"d\":0.25,\"oi\":{\"b\":false,\"s\":\"r\"},\"o\":7,\"in\":{\"s\":\"q\",\"b\":true},\"id\":1}"); dom(x, "{\"d\":0.25,\"oi\":{\"b\":false,\"s\":\"r\"},\"unknown\":[{\"id\":2}],\"o\":7,\"in\":{\"s\":\"q\",\"b\":true},\"id\":1}");
        no<Inner>("{\"s\":\"q\"}"); no<Inner>("{\"s\":1,\"b\":true}"); no<Inner>("[]"); no<Inner>("{\"b\":true}"); no<Outer>("{\"id\":1,\"in\":{\"s\":\"q\"},\"d\":1.5}"); x.d = 1e308 * 10; no_out(x);
    }
#endif
#ifdef K_SCHEMA
    struct Sub { int i = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(i); } };
    struct Shape { string s; optional<double> d; vector<Sub> v; map<string, bool> m; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(s) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(m); } };
    // printed, and compared between configurations
    template<typename T> void show_schema() { string s = persistence::schema_to_string<T>(), d = persistence::schema_document_to_string<T>(); std::printf("%s\n%s\n", s.c_str(), d.c_str()); rapidjson::Document a; a.Parse(s.c_str()); if (a.HasParseError() || !a.IsObject()) bad("schema_to_string", "an object", s); }
    void schemas() { show_schema<bool>(); show_schema<string>(); show_schema<vector<int>>(); show_schema<unsigned char>(); show_schema<double>(); show_schema<Shape>(); show_schema<vector<map<string, Shape>>>(); show_schema<tuple<int, Sub>>(); show_schema<array<Sub, 2>>(); show_schema<variant<int, string>>(); show_schema<persistence::timestamp>(); show_schema<persistence::byte_vector>(); }
#endif
#ifdef K_MIXED
    struct Mixed { vector<int> v; map<string, string> m; std::unique_ptr<int> u; array<bool, 2> a{}; persistence::byte_vector b; persistence::timestamp t; set<string> s;
        bool operator==(const Mixed& o) const { return v == o.v && m == o.m && Same<std::unique_ptr<int>>::eq(u, o.u) && a == o.a && b == o.b && t == o.t && s == o.s; }
        template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(u) & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & MEMBER_VARIABLE(t) & MEMBER_VARIABLE(s); } };
    void mixed() {
        Mixed x; x.v = {1, 2}; x.m["k"] = "w"; x.u = std::make_unique<int>(4); x.a = {{true, false}}; x.b = {std::byte{1}}; x.s = {"e"};
        string t = "{\"v\":[1,2],\"m\":{\"k\":\"w\"},\"u\":4,\"a\":[true,false],\"b\":\"AQ==\",\"t\":\"1970-01-01T00:00:00Z\",\"s\":[\"e\"]}";
        ok(x, t); vector<Mixed> many; no<Mixed>("{\"v\":[1,2],\"m\":{\"k\":\"w\"},\"u\":4,\"a\":[true,false,true],\"b\":\"AQ==\",\"t\":\"1970-01-01T00:00:00Z\",\"s\":[\"e\"]}");
        no<Mixed>("{\"v\":[1,2],\"m\":{\"k\":\"w\"},\"u\":4,\"a\":[true,false],\"b\":\"A===\",\"t\":\"1970-01-01T00:00:00Z\",\"s\":[\"e\"]}"); no<vector<map<string, Mixed>>>("[{\"k\":{}}]");
        std::shared_ptr<int> p = std::make_shared<int>(1); out(vector<std::shared_ptr<int>>{p, p}, "[1,{\"$ref\":\"/0\"}]"); 
#ifdef OP_DESERIALIZE
        auto q = persistence::deserialize<vector<std::shared_ptr<int>>>(string("[1,{\"$ref\":\"/0\"}]")); if (q.size() != 2 || q[0] != q[1]) bad("deserialize", "a shared object", "two");
#endif
    }
#endif
}
#ifdef K_NAMED
namespace persistence {
    template<> struct enum_traits<sel::Named> {
        static string_view to_string(sel::Named v) { return v == sel::Named::red ? "red" : v == sel::Named::green ? "green" : v == sel::Named::blue ? "blue" : string_view(); }
        static bool from_string(const string_view& s, sel::Named& v) { if (s == "red") v = sel::Named::red; else if (s == "green") v = sel::Named::green; else if (s == "blue") v = sel::Named::blue; else return false; return true; }
    };
    template<> struct enum_traits<sel::Tabled> {
        static constexpr auto table = make_enum_converter({ make_enum(sel::Tabled::one, "one"), make_enum(sel::Tabled::two, "two") });
        static string_view to_string(sel::Tabled v) { return table.to_string(v); }
        static bool from_string(const string_view& s, sel::Tabled& v) { return table.from_string(s, v); }
    };
}
namespace sel { void named() { ok(Named::red, "\"red\""); ok(Named::blue, "\"blue\""); no<Named>("\"Red\""); no<Named>("\"\""); no<Named>("0"); ok(Tabled::two, "\"two\""); no<Tabled>("\"three\""); no<Tabled>("\"on\""); no<Tabled>("1"); } }
#endif
#ifndef NO_MAIN
#ifdef SECOND_UNIT
void second();
#endif
int main() {
    using namespace sel;
#ifdef K_FUNDAMENTAL
    fundamental();
#endif
#ifdef K_STRING
    strings();
#endif
#ifdef K_ENUM
    enums();
#endif
#ifdef K_NAMED
    named();
#endif
#ifdef K_DESCRIBED
    described();
#endif
#ifdef K_BYTES
    bytes();
#endif
#ifdef K_DATETIME
    datetimes();
#endif
#ifdef K_DATE
    dates();
#endif
#ifdef K_VECTOR
    vectors();
#endif
#ifdef K_SET
    sets();
#endif
#ifdef K_ARRAY
    arrays();
#endif
#ifdef K_TUPLE
    tuples();
#endif
#ifdef K_MAP
    maps();
#endif
#ifdef K_POINTER
    pointers();
#endif
#ifdef K_VARIANT
    variants();
#endif
#ifdef K_OBJECT
    objects();
#endif
#ifdef K_SCHEMA
    schemas();
#endif
#ifdef K_MIXED
    mixed();
#endif
#ifdef SECOND_UNIT
    ::second();
#endif
    return failures ? 1 : 0;
}
#endif
