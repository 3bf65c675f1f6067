// C25: types supported by user-supplied specializations are handled like any other type, wherever they occur.
#pragma once
#include "c20.hpp"
#include <persistence/detail/path.hpp>
using std::string; using std::vector; using std::map; using std::pair; using std::tuple; using std::array; using std::unique_ptr; using std::shared_ptr;

struct UserErr : std::runtime_error { int n; explicit UserErr(int n) : std::runtime_error("user"), n(n) {} };
enum Kind { STR, NUM, BOOL, NUL, ARR, OBJ };
constexpr int REFUSED = 7771, THROWS = 7772;
inline int special = REFUSED;                     // which value Bad<> plants
// a user-defined value; form in JSON by kind: "u:5", 5, true, null, [5,6], {"k":5}
template<Kind K> struct U { int n = K == BOOL ? 1 : 0; bool operator<(const U& o) const { return n < o.n; } bool operator==(const U& o) const { return n == o.n; } };
// 1: fine, 0: refuse; throws for THROWS
inline bool admit(int n) { if (n == THROWS) throw UserErr(n); return n >= 0 && n < 1000; }
inline bool u_number(const string& s, int& n) {
    if (s.size() < 3 || s.size() > 6 || s[0] != 'u' || s[1] != ':') return false;
    n = 0;
    for (std::size_t i = 2; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; n = n * 10 + (s[i] - '0'); }
    return s == "u:" + std::to_string(n);
}
template<Kind K> struct Spec<U<K>> {
    using T = U<K>;
    static Node enc(const T& v, EncCtx& c) {
        if (v.n < 0 || v.n >= 1000) c.ok = false;
        if constexpr (K == STR) return Node::str("u:" + std::to_string(v.n));
        else if constexpr (K == NUM) return Node::num(std::to_string(v.n));
        else if constexpr (K == BOOL) return Node::boolean(v.n == 1);
        else if constexpr (K == NUL) return Node::null();
        else if constexpr (K == ARR) { Node n = Node::arr(); n.add(Node::num(std::to_string(v.n))); n.add(Node::num(std::to_string(v.n + 1))); return n; }
        else { Node n = Node::obj(); n.add("k", Node::num(std::to_string(v.n))); return n; }
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        bool ok = false;
        long long x = 0, y = 0;
        if constexpr (K == STR) { int i = 0; ok = n.k == Node::Str && u_number(n.s, i); x = i; }
        else if constexpr (K == NUM) ok = n.k == Node::Num && int_from_literal(n.s, x);
        else if constexpr (K == BOOL) { ok = n.k == Node::True; x = 1; }
        else if constexpr (K == NUL) ok = n.k == Node::Null;
        else if constexpr (K == ARR) ok = n.k == Node::Arr && n.a.size() == 2 && n.a[0].k == Node::Num && n.a[1].k == Node::Num && int_from_literal(n.a[0].s, x) && int_from_literal(n.a[1].s, y) && x >= 0 && x < 1000 && y == x + 1;
        else { const Node* k = n.k == Node::Obj && n.a.size() == 1 ? n.find("k") : nullptr; ok = k && k->k == Node::Num && int_from_literal(k->s, x); }
        if (!ok || x < 0 || x >= 1000) return c.fail(n.beg, n.end);
        v.n = int(x);
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx&) { return a.n == b.n; }
    static std::size_t count(int level) { return K == BOOL || K == NUL ? 1 : level <= 1 ? 4 : 2; }
    static T at(std::size_t i, int level) { T r; static const int L[] = { 1, 0, 5, 999 }; if (K != BOOL && K != NUL) r.n = L[i % count(level)]; return r; }
};
template<Kind K> struct Bad<U<K>> {
    static void each(U<K>& v, const string& p, const Fn& fn) {
        int save = v.n;
        if ((K == BOOL || K == NUL) && special == THROWS) return;    // these cannot tell it from the refused one
        v.n = special; fn(p + "=" + std::to_string(v.n));
        v.n = save;
    }
};

// transparent user-defined wrappers: passing on by inheritance, and by replacing the handler
template<typename T> struct Wrap { T v{}; bool operator<(const Wrap& o) const { return v < o.v; } };
template<typename T> struct Pass { T v{}; bool operator<(const Pass& o) const { return v < o.v; } };
template<typename W, typename T> struct WrapSpec {
    static Node enc(const W& w, EncCtx& c) { return Spec<T>::enc(w.v, c); }
    static bool dec(const Node& n, W& w, DecCtx& c) { return Spec<T>::dec(n, w.v, c); }
    static bool eq(const W& a, const W& b, EqCtx& c) { return Spec<T>::eq(a.v, b.v, c); }
    static std::size_t count(int level) { return Spec<T>::count(level); }
    static W at(std::size_t i, int level) { return W{ Spec<T>::at(i, level) }; }
};
template<typename T> struct Spec<Wrap<T>> : WrapSpec<Wrap<T>, T> {};
template<typename T> struct Spec<Pass<T>> : WrapSpec<Pass<T>, T> {};
template<typename T> struct Bad<Wrap<T>> { static void each(Wrap<T>& w, const string& p, const Fn& fn) { Bad<T>::each(w.v, p, fn); } };
template<typename T> struct Bad<Pass<T>> { static void each(Pass<T>& w, const string& p, const Fn& fn) { Bad<T>::each(w.v, p, fn); } };

// a class with members and an enumeration for which the user supplies another representation
struct Own { int n = 0; bool operator<(const Own& o) const { return n < o.n; } template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(n); } };
enum class OwnE : unsigned char { a, b, refused = 100, throws = 101 };
template<> struct Spec<Own> {
    static Node enc(const Own& v, EncCtx& c) { return Spec<U<STR>>::enc({ v.n }, c); }
    static bool dec(const Node& n, Own& v, DecCtx& c) { U<STR> u; if (!Spec<U<STR>>::dec(n, u, c)) return false; v.n = u.n; return true; }
    static bool eq(const Own& a, const Own& b, EqCtx&) { return a.n == b.n; }
    static std::size_t count(int level) { return level <= 1 ? 4 : 2; }
    static Own at(std::size_t i, int level) { Own o; o.n = Spec<U<STR>>::at(i, level).n; return o; }
};
template<> struct Bad<Own> { static void each(Own& v, const string& p, const Fn& fn) { int save = v.n; v.n = special; fn(p + "=" + std::to_string(v.n)); v.n = save; } };
template<> struct Spec<OwnE> {
    static Node enc(const OwnE& v, EncCtx& c) { if (int(v) > 1) c.ok = false; return Node::boolean(v == OwnE::b); }
    static bool dec(const Node& n, OwnE& v, DecCtx& c) { if (n.k != Node::True && n.k != Node::False) return c.fail(n); v = n.k == Node::True ? OwnE::b : OwnE::a; return true; }
    static bool eq(const OwnE& a, const OwnE& b, EqCtx&) { return a == b; }
    static std::size_t count(int) { return 2; }
    static OwnE at(std::size_t i, int) { return i % 2 ? OwnE::a : OwnE::b; }
};

namespace persistence {
    // ------------------------------------------------------------ the user's specializations
    template<Kind K> struct JsonWriter<U<K>> {
        bool operator()(const U<K>& v, StringWriter& w) const {
            if constexpr (K == ARR) { w.StartArray(); w.Int(v.n); }
            if constexpr (K == OBJ) { w.StartObject(); w.Key("k", 1, true); }
            if (!admit(v.n)) return false;
            if constexpr (K == STR) { string s = "u:" + std::to_string(v.n); return w.String(s.data(), rapidjson::SizeType(s.size()), true); }
            else if constexpr (K == NUM) return w.Int(v.n);
            else if constexpr (K == BOOL) return w.Bool(true);
            else if constexpr (K == NUL) return w.Null();
            else if constexpr (K == ARR) { w.Int(v.n + 1); return w.EndArray(2); }
            else { w.Int(v.n); return w.EndObject(1); }
        }
    };
    template<Kind K> struct JsonSerializer<U<K>> : JsonContextAwareSerializer {
        using JsonContextAwareSerializer::JsonContextAwareSerializer;
        bool operator()(const U<K>& v, rapidjson::Value& json) const {
            auto& al = context.global().allocator();
            if constexpr (K == ARR) { json.SetArray(); json.PushBack(v.n, al); }
            if constexpr (K == OBJ) json.SetObject();
            if (!admit(v.n)) return false;
            if constexpr (K == STR) { string s = "u:" + std::to_string(v.n); json.SetString(s.data(), rapidjson::SizeType(s.size()), al); }
            else if constexpr (K == NUM) json.SetInt(v.n);
            else if constexpr (K == BOOL) json.SetBool(true);
            else if constexpr (K == NUL) json.SetNull();
            else if constexpr (K == ARR) json.PushBack(v.n + 1, al);
            else json.AddMember("k", v.n, al);
            return true;
        }
    };
    template<Kind K> struct KindToken;
    template<> struct KindToken<STR> { using type = JsonValueString; };
    template<> struct KindToken<BOOL> { using type = JsonValueBoolean; };
    template<> struct KindToken<NUL> { using type = JsonValueNull; };
    template<> struct KindToken<NUM> { using type = JsonValueNumber; };
    template<typename Ctx> string where(Ctx& c) { if constexpr (requires { Path(c.segments()).str(); }) return Path(c.segments()).str(); else return "?"; }
    template<bool Exception, Kind K> struct JsonDeserializer<Exception, U<K>> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& j, U<K>& v) const {
            int n = -1;
            if constexpr (K == STR) { if (j.IsString() && !u_number(string(j.GetString(), j.GetStringLength()), n)) n = -1; }
            else if constexpr (K == NUM) { if (j.IsInt()) n = j.GetInt(); }
            else if constexpr (K == BOOL) { if (j.IsTrue()) n = 1; }
            else if constexpr (K == NUL) { if (j.IsNull()) n = 0; }
            else if constexpr (K == ARR) { if (j.IsArray() && j.Size() == 2 && j[0].IsInt() && j[1].IsInt() && j[0].GetInt() >= 0 && j[0].GetInt() < 100000 && j[1].GetInt() == j[0].GetInt() + 1) n = j[0].GetInt(); }
            else { if (j.IsObject() && j.MemberCount() == 1 && j.HasMember("k") && j["k"].IsInt()) n = j["k"].GetInt(); }
            if (!admit(n)) {
                if constexpr (Exception) throw JsonDeserializationError("unlucky", where(context)); else return false;
            }
            v.n = n;
            return true;
        }
    };
    template<Kind K> struct JsonParser<U<K>> : JsonParseHandler<typename KindToken<K>::type> {
        using json_type = typename KindToken<K>::type;
        using Base = JsonParseHandler<json_type>;
        JsonParser(ReaderContext& context, U<K>& ref) : Base(context), ref(ref) {}
        bool done(int n) { if (!admit(n)) { this->context.fail("unlucky"); return false; } ref.n = n; this->context.pop(); return true; }
        bool parse(const JsonValueString& s) override { if constexpr (K != STR) return Base::parse(s); else { int n = -1; return done(u_number(string(s.literal), n) ? n : -1); } }
        bool parse(const JsonValueBoolean& b) override { if constexpr (K != BOOL) return Base::parse(b); else return done(b.value ? 1 : -1); }
        bool parse(const JsonValueNull& z) override { if constexpr (K != NUL) return Base::parse(z); else return done(0); }
        bool parse(const JsonValueInteger& n) override { if constexpr (K != NUM) return Base::parse(n); else return done(n.value); }
        bool parse(const JsonValueUnsigned& n) override { if constexpr (K != NUM) return Base::parse(n); else return done(n.value > 100000u ? -1 : int(n.value)); }
        using Base::parse;
    private:
        U<K>& ref;
    };
    // takes its tokens itself
    template<> struct JsonParser<U<ARR>> : JsonParseHandler<JsonArrayStart> {
        using json_type = JsonArrayStart;
        JsonParser(ReaderContext& context, U<ARR>& ref) : JsonParseHandler(context), ref(ref) {}
        bool no() { context.fail("unlucky"); return false; }
        bool number(long long n) { if (state == 1) { x = n; state = 2; return n == THROWS ? admit(THROWS) : true; } if (state == 2 && x >= 0 && x < 100000 && n == x + 1) { state = 3; return true; } return no(); }
        bool parse(const JsonArrayStart& t) override { if (state) return JsonParseHandler::parse(t); state = 1; return true; }
        bool parse(const JsonValueInteger& n) override { return number(n.value); }
        bool parse(const JsonValueUnsigned& n) override { return number(n.value); }
        bool parse(const JsonArrayEnd&) override { if (state != 3 || x < 0 || x > 100000 || !admit(int(x))) return no(); ref.n = int(x); context.pop(); return true; }
        using JsonParseHandler::parse;
    private:
        U<ARR>& ref; int state = 0; long long x = 0;
    };
    // passes the member on to another parser and checks at the end
    template<> struct JsonParser<U<OBJ>> : JsonParseHandler<JsonObjectStart> {
        using json_type = JsonObjectStart;
        JsonParser(ReaderContext& context, U<OBJ>& ref) : JsonParseHandler(context), ref(ref) {}
        bool no() { context.fail("unlucky"); return false; }
        bool parse(const JsonObjectStart& t) override { if (state) return JsonParseHandler::parse(t); state = 1; return true; }
        bool parse(const JsonObjectKey& k) override { if (state != 1 || k.identifier != "k") return no(); state = 2; context.emplace<JsonParser<int>>(context, ref.n); return true; }
        bool parse(const JsonObjectEnd&) override { if (state != 2 || !admit(ref.n)) return no(); context.pop(); return true; }
        using JsonParseHandler::parse;
    private:
        U<OBJ>& ref; int state = 0;
    };

#define PASS_ON(W) \
    template<typename T> struct JsonWriter<W<T>> : JsonContextAwareWriter { using JsonContextAwareWriter::JsonContextAwareWriter; bool operator()(const W<T>& w, StringWriter& writer) const { return serialize(w.v, writer, context); } }; \
    template<typename T> struct JsonSerializer<W<T>> : JsonContextAwareSerializer { using JsonContextAwareSerializer::JsonContextAwareSerializer; bool operator()(const W<T>& w, rapidjson::Value& json) const { return serialize(w.v, json, context); } }; \
    template<bool Exception, typename T> struct JsonDeserializer<Exception, W<T>> : JsonContextAwareDeserializer { using JsonContextAwareDeserializer::JsonContextAwareDeserializer; bool operator()(const rapidjson::Value& json, W<T>& w) const { return deserialize<Exception>(json, w.v, context); } };
    PASS_ON(Wrap) PASS_ON(Pass)
    template<typename T> struct JsonParser<Wrap<T>> : JsonParser<T> { JsonParser(ReaderContext& context, Wrap<T>& w) : JsonParser<T>(context, w.v) {} };
    template<typename T> struct JsonParser<Pass<T>> : JsonParseHandler<typename JsonParser<T>::json_type> {
        using json_type = typename JsonParser<T>::json_type;
        JsonParser(ReaderContext& context, Pass<T>& w) : JsonParseHandler<json_type>(context), w(w) {}
        bool parse(const json_type& token) override { ReaderContext& ctx = this->context; auto&& handler = ctx.template replace<JsonParser<T>>(ctx, w.v); return handler.parse(token); }
        using JsonParseHandler<json_type>::parse;
    private:
        Pass<T>& w;
    };

    template<> struct JsonWriter<Own> { bool operator()(const Own& v, StringWriter& w) const { return JsonWriter<U<STR>>()({ v.n }, w); } };
    template<> struct JsonSerializer<Own> : JsonContextAwareSerializer { using JsonContextAwareSerializer::JsonContextAwareSerializer; bool operator()(const Own& v, rapidjson::Value& json) const { return JsonSerializer<U<STR>>(context)({ v.n }, json); } };
    template<bool Exception> struct JsonDeserializer<Exception, Own, void> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, Own& v) const { U<STR> u; if (!JsonDeserializer<Exception, U<STR>>(context)(json, u)) return false; v.n = u.n; return true; }
    };
    template<> struct JsonParser<Own> : JsonParseHandler<JsonValueString> {
        using json_type = JsonValueString;
        JsonParser(ReaderContext& context, Own& ref) : JsonParseHandler(context), ref(ref) {}
        bool parse(const JsonValueString& s) override { int n = -1; if (!u_number(string(s.literal), n) || !admit(n)) { context.fail("unlucky"); return false; } ref.n = n; context.pop(); return true; }
        using JsonParseHandler::parse;
    private:
        Own& ref;
    };
    template<> struct JsonWriter<OwnE> { bool operator()(const OwnE& v, StringWriter& w) const { return int(v) <= 1 && w.Bool(v == OwnE::b); } };
    template<> struct JsonSerializer<OwnE> { bool operator()(const OwnE& v, rapidjson::Value& json) const { if (int(v) > 1) return false; json.SetBool(v == OwnE::b); return true; } };
    template<> struct JsonDeserializer<true, OwnE> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, OwnE& v) const { if (!json.IsBool()) throw JsonDeserializationError("unlucky", where(context)); v = json.GetBool() ? OwnE::b : OwnE::a; return true; }
    };
    template<> struct JsonDeserializer<false, OwnE> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, OwnE& v) const { if (!json.IsBool()) return false; v = json.GetBool() ? OwnE::b : OwnE::a; return true; }
    };
    template<> struct JsonParser<OwnE> : JsonParseHandler<JsonValueBoolean> {
        using json_type = JsonValueBoolean;
        JsonParser(ReaderContext& context, OwnE& ref) : JsonParseHandler(context), ref(ref) {}
        bool parse(const JsonValueBoolean& b) override { ref = b.value ? OwnE::b : OwnE::a; context.pop(); return true; }
        using JsonParseHandler::parse;
    private:
        OwnE& ref;
    };
}
template<> struct Bad<OwnE> { static void each(OwnE& v, const string& p, const Fn& fn) { if (special == THROWS) return; OwnE save = v; v = OwnE::refused; fn(p + "=100"); v = save; } };

// ---------------------------------------------------------------- classes that hold user-defined values
#define MV(n) & MEMBER_VARIABLE(n)
template<typename X> struct H1 { using HarnessClass = H1; X x{};
    template<typename A> constexpr auto persist(A& ar) { return ar MV(x); } template<typename F> static void fields(F& f) { f.req("x", &H1::x); } };
template<typename X> struct H1o { using HarnessClass = H1o; std::optional<X> x{};
    template<typename A> constexpr auto persist(A& ar) { return ar MV(x); } template<typename F> static void fields(F& f) { f.opt("x", &H1o::x); } };
template<typename X> struct H2 { using HarnessClass = H2; X x{}; string s{};
    template<typename A> constexpr auto persist(A& ar) { return ar MV(x) MV(s); } template<typename F> static void fields(F& f) { f.req("x", &H2::x); f.req("s", &H2::s); } };
template<typename X> struct H2r { using HarnessClass = H2r; int i{}; std::optional<X> x{};
    template<typename A> constexpr auto persist(A& ar) { return ar MV(i) MV(x); } template<typename F> static void fields(F& f) { f.req("i", &H2r::i); f.opt("x", &H2r::x); } };
template<typename X> struct H3 { using HarnessClass = H3; std::optional<X> o{}; X r{}; X d{}; vector<X> v{}; std::optional<vector<X>> ov{};
    template<typename A> constexpr auto persist(A& ar) { return ar MV(o) MV(r) & MEMBER_VARIABLE_DEFAULT(d) MV(v) MV(ov); }
    template<typename F> static void fields(F& f) { f.opt("o", &H3::o); f.req("r", &H3::r); f.def("d", &H3::d); f.req("v", &H3::v); f.opt("ov", &H3::ov); } };
template<typename X> struct HD : H1<X> { using HarnessClass = HD; X y{}; std::optional<X> z{};
    template<typename A> constexpr auto persist(A& ar) { return H1<X>::persist(ar) MV(y) MV(z); }
    template<typename F> static void fields(F& f) { H1<X>::fields(f); f.req("y", &HD::y); f.opt("z", &HD::z); } };
template<typename X> struct HN { using HarnessClass = HN; vector<H2<X>> l{}; map<string, H3<X>> m{}; std::optional<unique_ptr<X>> p{}; int tail{};
    template<typename A> constexpr auto persist(A& ar) { return ar MV(l) MV(m) MV(p) MV(tail); }
    template<typename F> static void fields(F& f) { f.req("l", &HN::l); f.req("m", &HN::m); f.opt("p", &HN::p); f.req("tail", &HN::tail); } };
#undef MV

template<typename T, bool P> void u_one(Run& R, const string& name, Node d) {
    if (R.stop() || left_open(d) || d.has_dup_keys()) return;
    if (check_read<T, P>(R, name, d, false)) R.extra(0, 1);
}
// a value that the user's code refuses, or at which it throws, at every place
template<typename T, bool P> void u_special(Run& R, const string& name, T& v, const string& base) {
    for (int sp : { REFUSED, THROWS }) {
        special = sp;
        Bad<T>::each(v, "", [&](const string& at) {
            if (R.stop() || !at.ends_with("=" + std::to_string(sp))) return;      // other values without JSON form
            EncCtx e; Node d = Spec<T>::enc(v, e);
            string s = jtext(d);
            R.at(name, at + " in " + show(base, 150));
            R.count(Run::hash(name + at + base));
            R.extra(1, 1);
            R.sample(name + " " + at + " in " + show(base, 80));
            if (sp == THROWS) for (int mode = 0; mode < 4; ++mode) {
                static const char* N[] = { "write_to_string(obj, str)", "write_to_string(obj)", "serialize_to_document(obj, doc)", "serialize_to_document(obj)" };
                string got = "q"; bool seen = false;
                try {
                    rapidjson::Document doc;
                    if (mode == 0) persistence::write_to_string(v, got);
                    else if (mode == 1) persistence::write_to_string(v);
                    else if (mode == 2) persistence::serialize_to_document(v, doc);
                    else persistence::serialize_to_document(v);
                } catch (const UserErr& u) { seen = u.n == THROWS; } catch (...) {}
                if (!seen) { R.fail(string(N[mode]) + " does not let the exception of the user's code through"); return; }
                if (got != "q") { R.fail(string(N[mode]) + " modifies the target although the user's code throws"); return; }
            }
            DecCtx c; c.root = &d; T want{};
            bool conforms = Spec<T>::dec(d, want, c);
            if (conforms) return;                                // not distinguishable in JSON
            bool inside = s.find(std::to_string(sp)) != string::npos;
            for (int mode = 0; mode < (P ? 7 : 5); ++mode) {
                static const char* N[] = { "deserialize(str, obj)", "deserialize<T>(str)", "deserialize(doc, obj)", "deserialize<T>(doc)", "deserialize(temporary, obj)", "parse(str, obj)", "parse<T>(str)" };
                int r = 5; string what, path; std::size_t off = 0;
                try {
                    T x{}; string t = padded(s);
                    bool ok = true;
                    switch (mode) {
                    case 0: ok = persistence::deserialize(t, x); break;
                    case 1: x = persistence::deserialize<T>(t); break;
                    case 2: { auto doc = persistence::string_to_document(t); ok = persistence::deserialize(doc, x); break; }
                    case 3: { auto doc = persistence::string_to_document(t); x = persistence::deserialize<T>(doc); break; }
                    case 4: ok = persistence::deserialize(padded(t), x); break;
                    case 5: if constexpr (P) ok = persistence::parse(t, x); break;
                    case 6: if constexpr (P) x = persistence::parse<T>(t); break;
                    }
                    r = ok ? 1 : 0;
                } catch (const UserErr& u) { r = u.n == THROWS ? 2 : 5; }
                catch (const persistence::JsonDeserializationError& x) { r = 3; what = x.what(); path = x.path; }
                catch (const persistence::JsonParseError& x) { r = 4; what = x.what(); off = x.offset; }
                catch (...) {}
                if (r == 1) { R.fail(string(N[mode]) + " accepts what the user's code refuses: " + show(s)); return; }
                if (sp == THROWS) { if (inside && r != 2) { R.fail(string(N[mode]) + " does not let the exception of the user's code through: " + show(s)); return; } continue; }
                bool thrower = mode == 1 || mode == 3 || mode == 6;
                if (r != (thrower ? (mode == 6 ? 4 : 3) : 0)) { R.fail(string(N[mode]) + " reports the refusal of the user's code through the wrong channel: " + show(s)); return; }
                if (r == 3) {
                    bool hit = false; for (auto& o : c.offs) hit = hit || o.path == path;
                    if (path != "?" && !hit) { R.fail(string(N[mode]) + " reports the refusal of the user's code at " + path + " instead of " + (c.offs.empty() ? string() : c.offs[0].path)); return; }
                }
                if (r == 4) {
                    bool hit = false; for (auto& o : c.offs) hit = hit || (off >= o.beg && off <= o.end);
                    if (!hit) { R.fail(string(N[mode]) + " reports the refusal of the user's code at offset " + std::to_string(off)); return; }
                }
                if (P && r >= 3 && what.find("unlucky") == string::npos) { R.fail(string(N[mode]) + " drops the reason given by the user's code: " + what); return; }
            }
        });
    }
    special = REFUSED;
}
template<typename T, bool P = true> void user(Run& R, const string& name, bool ordered = true) {
    R.unit(name + " values", [&R, name, ordered] {
        for (int level : { 0, 1, 2 }) {
            std::size_t n = Spec<T>::count(level), lim = R.thorough() ? 1000 : 40;
            for (std::size_t i = 0; i < n && i < lim && !R.stop(); ++i) {
                T v = Spec<T>::at(n <= lim ? i : i * n / lim, level);
                EncCtx c; Node d = Spec<T>::enc(v, c);
                if (!c.ok || node_count(d) > 400) continue;
                check_write<T>(R, name, v, ordered);
                u_one<T, P>(R, name, d);
                if (node_count(d) < (R.thorough() ? 200u : 40u)) u_special<T, P>(R, name, v, jtext(d));
            }
        }
    });
    R.unit(name + " documents", [&R, name] { generic_docs([&](Node& n) { u_one<T, P>(R, name, n); }, R.thorough() ? 3 : 2); });
    R.unit(name + " edits", [&R, name] {
        int k = 0;
        for (int level : { 1, 2 }) {
            std::size_t n = Spec<T>::count(level), lim = R.thorough() ? 100 : 8;
            for (std::size_t i = 0; i < n && i < lim; ++i) {
                T v = Spec<T>::at(n <= lim ? i : i * n / lim, level); EncCtx c; Node d = Spec<T>::enc(v, c);
                if (c.ok && node_count(d) < 40 && ++k < 60) single_edits(d, [&](Node& e) { u_one<T, P>(R, name, e); }, 25);
            }
        }
    });
    bad<T>(R, name + " unrepresentable");
}
template<typename X> void shapes(Run& R, const string& x) {
    user<X>(R, x); user<vector<X>>(R, "vector<" + x + ">"); user<array<X, 3>>(R, "array<" + x + ", 3>"); user<std::set<X>>(R, "set<" + x + ">");
    user<map<string, X>>(R, "map<" + x + ">"); user<std::unordered_map<string, X>>(R, "unordered_map<" + x + ">", false);
    user<pair<X, int>>(R, "pair<" + x + ", int>"); user<pair<string, X>>(R, "pair<string, " + x + ">"); user<tuple<X, string, X>>(R, "tuple<" + x + ", string, " + x + ">");
    user<unique_ptr<X>>(R, "unique_ptr<" + x + ">"); user<vector<shared_ptr<X>>>(R, "vector<shared_ptr<" + x + ">>");
    user<H1<X>>(R, "class of one " + x); user<H1o<X>>(R, "class of one optional " + x); user<H2<X>>(R, "class of two with " + x); user<H2r<X>>(R, "class of two with optional " + x);
}
template<typename X> void shapes2(Run& R, const string& x) {
    user<vector<vector<X>>>(R, "vector<vector<" + x + ">>"); user<map<string, vector<X>>>(R, "map<vector<" + x + ">>"); user<shared_ptr<X>>(R, "shared_ptr<" + x + ">"); user<vector<unique_ptr<X>>>(R, "vector<unique_ptr<" + x + ">>");
    user<H3<X>>(R, "class of five with " + x); user<HD<X>>(R, "derived class with " + x); user<HN<X>>(R, "nested classes with " + x);
    user<std::variant<X, C2>, false>(R, "variant<" + x + ", class>"); user<std::variant<C2, vector<X>, X>, false>(R, "variant<class, vector, " + x + ">"); user<vector<std::variant<C2, X>>, false>(R, "vector<variant<class, " + x + ">>");
}
