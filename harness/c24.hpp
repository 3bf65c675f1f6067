#pragma once
// C24: enumerations map one-to-one between values and names or integers.
#include "cmp.hpp"

enum class ELong : unsigned { first, second, third, fourth, a_rather_long_enumerator_name_that_exceeds_any_small_buffer, fifth, z };
ENUM_INFO(ELong, {ELong::first, "first"}, {ELong::second, "second"}, {ELong::third, "third"}, {ELong::fourth, "fourth"}, {ELong::a_rather_long_enumerator_name_that_exceeds_any_small_buffer, "a_rather_long_enumerator_name_that_exceeds_any_small_buffer"}, {ELong::fifth, "fifth"}, {ELong::z, "z"})
BOOST_DESCRIBE_ENUM(ELong, first, second, third, fourth, a_rather_long_enumerator_name_that_exceeds_any_small_buffer, fifth, z)
enum EPlain { EPlain_none = 0, EPlain_one = 1, EPlain_max = 0x7fffffff, EPlain_min = -0x7fffffff - 1 };
BOOST_DESCRIBE_ENUM(EPlain, EPlain_none, EPlain_one, EPlain_max, EPlain_min)
ENUM_INFO(EPlain, {EPlain_none, "EPlain_none"}, {EPlain_one, "EPlain_one"}, {EPlain_max, "EPlain_max"}, {EPlain_min, "EPlain_min"})
enum class EDesc1 : unsigned long long { solo = 0xffffffffffffffffull };
BOOST_DESCRIBE_ENUM(EDesc1, solo)
ENUM_INFO(EDesc1, {EDesc1::solo, "solo"})
enum class EChar : char { a, b };
// names with unusual characters, values in no particular order
enum class EOdd : short { a = 30000, b = -30000, c = 0, d = 1, e = -1, f = 2 };
ENUM_INFO(EOdd, {EOdd::a, ""}, {EOdd::b, " "}, {EOdd::c, std::string("n\0l", 3)}, {EOdd::d, "\xf0\x9f\x98\x80"}, {EOdd::e, "-1"}, {EOdd::f, "null"})
namespace persistence {
    template<> struct enum_traits<EOdd> {
        inline constexpr static auto converter = make_enum_converter(std::array<std::pair<EOdd, std::string_view>, 6>{ { { EOdd::a, "" }, { EOdd::b, " " }, { EOdd::c, std::string_view("n\0l", 3) }, { EOdd::d, "\xf0\x9f\x98\x80" }, { EOdd::e, "-1" }, { EOdd::f, "null" } } });
        static std::string_view to_string(EOdd v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, EOdd& v) { return converter.from_string(s, v); }
    };
}

template<typename E> struct CR { using HarnessClass = CR; E m{}; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(m); } template<typename F> static void fields(F& f) { f.req("m", &CR::m); } };
template<typename E> struct CM { using HarnessClass = CM; int i{}; std::optional<E> o; E m{}; E d = Spec<E>::at(0, 0);
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(i) & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(m) & MEMBER_VARIABLE_DEFAULT(d); }
    template<typename F> static void fields(F& f) { f.req("i", &CM::i); f.opt("o", &CM::o); f.req("m", &CM::m); f.def("d", &CM::d); } };

static Node arr(std::vector<Node> v) { Node n = Node::arr(); for (auto& x : v) n.add(std::move(x)); return n; }
static Node obj1(std::string k, Node v) { Node n = Node::obj(); n.add(std::move(k), std::move(v)); return n; }

template<typename E> static std::vector<Node> candidates(bool th) {
    std::set<std::string> S;
    std::vector<std::string> names;
    if constexpr (EnumInfo<E>::is_string) for (auto& p : EnumInfo<E>::names()) names.push_back(p.second);
    else names = { "a", "b", "0", "1" };
    for (auto& n : names) {
        S.insert(n);
        for (std::size_t i = 0; i <= n.size(); ++i) {
            S.insert(n.substr(0, i)); S.insert(n.substr(i));
            for (int ch : { 0, 1, 9, 32, 34, 45, 47, 48, 57, 65, 90, 92, 95, 97, 122, 127 }) if (names.size() <= 20 || ch == 0 || ch == 48) S.insert(n.substr(0, i) + char(ch) + n.substr(i));
            if (i < n.size()) {
                S.insert(n.substr(0, i) + n.substr(i + 1));
                for (int bit = 0; bit < 7; ++bit) { std::string m = n; m[i] = char(m[i] ^ (1 << bit)); S.insert(m); }
                if (th) for (int ch = 1; ch < 128; ++ch) { std::string m = n; m[i] = char(ch); S.insert(m); }
                if (i + 1 < n.size()) { std::string m = n; std::swap(m[i], m[i + 1]); S.insert(m); }
            }
        }
        if (names.size() <= 20) for (auto& m : names) { S.insert(n + m); S.insert(n + "," + m); S.insert(n + "|" + m); S.insert(n + std::string(1, '\0') + m); }
        std::string u = n, l = n;
        for (char& c : u) c = char(std::toupper(static_cast<unsigned char>(c)));
        for (char& c : l) c = char(std::tolower(static_cast<unsigned char>(c)));
        S.insert(u); S.insert(l); S.insert("E::" + n); S.insert(n + "::"); S.insert(std::string(300, 'x') + n); S.insert(n + std::string(300, 'x'));
    }
    for (auto s : { "", "0", "1", "-1", "30000", "EStr::Unu", "Unu", "Left", "only", "zero", "(unknown)", "null", "true" }) S.insert(s);
    std::vector<Node> r;
    for (auto& s : S) { bool utf = true; for (char c : s) if (static_cast<unsigned char>(c) >= 0x80) utf = false; for (auto& n : names) if (n == s) utf = true; if (utf) r.push_back(Node::str(s)); }
    for (auto& a : alphabet()) if (a.k != Node::Str && !left_open(a)) r.push_back(a);
    if constexpr (!EnumInfo<E>::is_string) {
        using U = std::underlying_type_t<E>;
        if (sizeof(U) <= (th ? 2 : 1)) for (long x = -(70000L); x <= 140000L; x += (th || (x > -1100 && x < 1100) ? 1 : 127)) r.push_back(Node::num(std::to_string(x)));
        for (int b = 0; b <= 66; ++b) for (int d = -2; d <= 2; ++d) for (int s = 0; s < 2; ++s) {
            __int128 x = (static_cast<__int128>(1) << b) + d; if (s) x = -x;
            std::string o; bool neg = x < 0; if (neg) x = -x; if (x == 0) neg = false;
            do { o.insert(o.begin(), char('0' + int(x % 10))); x /= 10; } while (x);
            Node q = Node::num((neg ? "-" : "") + o);
            if (!left_open(q)) r.push_back(q);
        }
        for (auto s : { "0.0", "1.0", "1e0", "0.5", "1E1", "-0.0" }) r.push_back(Node::num(s));
    }
    return r;
}
template<typename T, bool P = true> static void shape(Run& R, const std::string& en, const char* sn, const std::vector<Node>& cand, const std::function<Node(const Node&)>& put, bool top = false) {
    R.unit(en + " " + sn, [&R, en, sn, &cand, put, top] {
        for (auto& x : cand) {
            if (R.stop()) return;
            Node doc = put(x);
            if (doc.has_dup_keys()) continue;
            if (check_read<T, P>(R, en + " " + sn, doc, !top && cand.size() > 3000)) {
                T v{}; DecCtx c; c.root = &doc;
                Spec<T>::dec(doc, v, c);
                R.extra(0, 1);
                check_write<T>(R, en + " " + sn, v, false);
            }
        }
    });
}
template<typename E> static void enumeration(Run& R, const std::string& en) {
    static std::vector<Node> cand;
    cand = candidates<E>(R.thorough());
    EncCtx e; E g0 = Spec<E>::at(0, 0), g1 = Spec<E>::at(1, 0);
    Node a = Spec<E>::enc(g0, e), b = Spec<E>::enc(g1, e);
    shape<E>(R, en, "top level", cand, [](const Node& x) { return x; }, true);
    shape<std::vector<E>>(R, en, "vector", cand, [a](const Node& x) { return arr({ a, x }); });
    shape<std::vector<E>>(R, en, "vector first", cand, [a](const Node& x) { return arr({ x, a }); });
    shape<std::set<E>>(R, en, "set", cand, [b](const Node& x) { return arr({ x, b }); });
    shape<std::array<E, 3>>(R, en, "array", cand, [a, b](const Node& x) { return arr({ a, x, b }); });
    shape<std::map<std::string, E>>(R, en, "map", cand, [a](const Node& x) { Node n = obj1("k", a); n.add("l", x); return n; });
    shape<std::unordered_map<std::string, E>>(R, en, "unordered_map", cand, [](const Node& x) { return obj1("k", x); });
    shape<std::unique_ptr<E>>(R, en, "unique_ptr", cand, [](const Node& x) { return x; });
    shape<std::shared_ptr<E>>(R, en, "shared_ptr", cand, [](const Node& x) { return x; });
    shape<std::pair<E, int>>(R, en, "pair", cand, [](const Node& x) { return arr({ x, Node::num("7") }); });
    shape<std::tuple<std::string, E, E>>(R, en, "tuple", cand, [a](const Node& x) { return arr({ Node::str("s"), a, x }); });
    shape<CR<E>>(R, en, "class", cand, [](const Node& x) { return obj1("m", x); });
    shape<CM<E>>(R, en, "optional member", cand, [a](const Node& x) { Node n = obj1("i", Node::num("1")); n.add("m", a); n.add("o", x); return n; });
    shape<CM<E>>(R, en, "default member", cand, [a](const Node& x) { Node n = obj1("d", x); n.add("i", Node::num("1")); n.add("m", a); return n; });
    shape<std::variant<E, std::vector<E>>, false>(R, en, "variant", cand, [](const Node& x) { return x; });
    shape<std::vector<std::map<std::string, E>>>(R, en, "map in vector", cand, [](const Node& x) { return arr({ obj1("k", x), Node::obj() }); });
}
template<typename E, typename C> static void converter(Run& R, const std::string& en, const C& conv) {
    R.unit("converter " + en, [&R, en, &conv] {
        for (auto& p : EnumInfo<E>::names()) {
            R.at(en + " " + show(p.second)); R.count(Run::hash(en + p.second));
            if (std::string(conv.to_string(p.first)) != p.second) R.fail("to_string gives " + show(std::string(conv.to_string(p.first))));
            E v{}; std::string s = p.second;
            if (!conv.from_string(std::string_view(s), v) || v != p.first) R.fail("from_string does not give the value back");
        }
        for (auto& n : candidates<E>(true)) if (n.k == Node::Str) {
            bool known = false; for (auto& p : EnumInfo<E>::names()) if (p.second == n.s) known = true;
            // an unterminated view in a block of exactly the right size
            std::vector<char> exact(n.s.begin(), n.s.end());
            E before = EnumInfo<E>::names()[0].first, v = before;
            R.at(en + " view " + show(n.s)); R.count(Run::hash(en + "v" + n.s));
            bool r = conv.from_string(std::string_view(exact.data(), exact.size()), v);
            if (r != known) R.fail(r ? "unknown name accepted" : "name refused");
            if (!r && v != before) R.fail("value modified although the name is unknown");
        }
    });
}
