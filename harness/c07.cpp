// C07: floating-point values survive bit-exactly in every writer/reader pair; unrepresentable numbers are refused.
#include "core.hpp"
#include "types.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

template<typename T> struct Bits;
template<> struct Bits<float> { using U = std::uint32_t; static constexpr int M = 23, E = 8; };
template<> struct Bits<double> { using U = std::uint64_t; static constexpr int M = 52, E = 11; };
template<typename T> T of(typename Bits<T>::U u) { T t; std::memcpy(&t, &u, sizeof t); return t; }
template<typename T> std::string nm(T v) { char b[64]; std::snprintf(b, sizeof b, "%a (%.17g)", double(v), double(v)); return b; }
template<typename T> constexpr const char* tn() { return std::is_same_v<T, float> ? "float" : "double"; }

template<typename T> static void value(Run& R, T v, bool all) {
    if (!std::isfinite(v)) return;
    typename Bits<T>::U u; std::memcpy(&u, &v, sizeof v);
    std::string s, d;
    if (!persistence::write_to_string(v, s)) { R.fail_at(nm(v), "finite value is not written"); return; }
    T a = 77, b = 77;
    if (!persistence::parse(s, a) || !bits_equal(a, v)) { R.fail_at(nm(v), "written as " + s + ", parsed as " + nm(a)); return; }
    if (!persistence::deserialize(s, b) || !bits_equal(b, v)) { R.fail_at(nm(v), "written as " + s + ", deserialized as " + nm(b)); return; }
    if (all) {
        R.at(nm(v));
        rapidjson::Document doc;
        if (!persistence::serialize_to_document(v, doc)) { R.fail("finite value is not serialized"); return; }
        T c = 77, e = 77;
        if (!persistence::deserialize(doc, c) || !bits_equal(c, v)) { R.fail("DOM round trip gives " + nm(c)); return; }
        d = persistence::document_to_string(doc);
        if (!persistence::parse(d, e) || !bits_equal(e, v)) { R.fail("serialized as " + d + ", parsed as " + nm(e)); return; }
        if (s != d) { R.fail("writers disagree: " + s + " / " + d); return; }
        Node n;
        if (!jparse(s, n) || n.k != Node::Num) { R.fail("written text is not a JSON number: " + s); return; }
        if (!bits_equal(std::strtod(s.c_str(), nullptr), double(v))) { R.fail("written text denotes another number: " + s); return; }
    }
    R.count((std::uint64_t(u) * 0x9E3779B97F4A7C15ull) ^ sizeof(T));
}
template<typename T> static const std::vector<typename Bits<T>::U>& mantissas(bool th) {
    using U = typename Bits<T>::U;
    static std::vector<U> L;
    if (!L.empty()) return L;
    constexpr int M = Bits<T>::M;
    std::set<U> s;
    U full = (U(1) << M) - 1;
    for (int i = 0; i <= M; ++i) { U m = i == M ? 0 : U(1) << i; s.insert(m); s.insert(full ^ m); s.insert((U(1) << i) - 1); s.insert(full & ~((U(1) << i) - 1)); for (int j = 0; j < i; ++j) { s.insert((m | U(1) << j) & full); if (th) for (int k = 0; k < j; ++k) s.insert((m | U(1) << j | U(1) << k) & full); } }
    for (int t = 0; t < (th ? 4096 : 64); ++t) { s.insert(U(t)); s.insert(full - U(t)); s.insert((U(t) << (M - (th ? 12 : 6))) & full); s.insert((full / 3 + U(t) * (full / 64 + 7)) & full); s.insert((full / 10 * U(t % 10) + U(t)) & full); }
    L.assign(s.begin(), s.end());
    return L;
}
template<typename T> static void values(Run& R) {
    bool th = R.thorough();
    int E = 1 << Bits<T>::E;
    for (int e = 0; e < E - 1; e += (std::is_same_v<T, float> ? 4 : 8)) R.unit(std::string("values ") + tn<T>() + " exponents " + std::to_string(e), [&R, e, E, th] {
        using U = typename Bits<T>::U;
        R.sample(std::string(tn<T>()) + " " + nm(of<T>(U(e) << Bits<T>::M | 1)));
        for (int f = e; f < e + (std::is_same_v<T, float> ? 4 : 8) && f < E - 1; ++f) for (U sg = 0; sg < 2; ++sg) for (U m : mantissas<T>(th)) {
            if (R.stop()) return;
            value<T>(R, of<T>(sg << (Bits<T>::M + Bits<T>::E) | U(f) << Bits<T>::M | m), true);
        }
    });
}
// ---- literals
template<typename T> static void literal(Run& R, const std::string& lit) {
    Node n;
    JParser jp(lit);
    if (!jp.document(n) || n.k != Node::Num) return;
    if (lit == "-0") return;
    {   // zero significand with an exponent beyond the limits: left open (refused by RapidJSON before conversion)
        auto ep = lit.find_first_of("eE");
        if (ep != std::string::npos && lit.substr(0, ep).find_first_of("123456789") == std::string::npos && std::labs(std::strtol(lit.c_str() + ep + 1, nullptr, 10)) > 300) return;
    }
    double d = std::strtod(lit.c_str(), nullptr), ad = std::fabs(d);
    if (sizeof(T) == 4 && ad > 3.4028234663852886e38 && ad < 3.4028235677973366e38) return;      // rounds to the largest float: open
    bool isint = is_int_literal(lit);
    if (isint && (ad == 16777216.0 || ad == 9007199254740992.0)) return;
    R.at(tn<T>(), lit);
    R.count(Run::hash(lit) ^ sizeof(T));
    DecCtx c; T want{};
    bool ok = Spec<T>::dec(n, want, c);
    for (int mode = 0; mode < 3; ++mode) {
        T got = T(77);
        bool r = false;
        const char* f = mode == 0 ? "parse" : mode == 1 ? "deserialize" : "deserialize(document)";
        if (mode == 0) r = persistence::parse(lit, got);
        else if (mode == 1) r = persistence::deserialize(lit, got);
        else { rapidjson::Document doc = persistence::string_to_document(lit); r = persistence::deserialize(doc, got); }
        if (r != ok) { R.fail(std::string(f) + (r ? " accepts " : " refuses ") + show(lit) + (r ? " as " + nm(got) : "")); return; }
        if (r && !bits_equal(got, want)) { R.fail(std::string(f) + " reads " + show(lit) + " as " + nm(got) + " instead of " + nm(want)); return; }
    }
}
template<typename T> static void literals(Run& R) {
    bool th = R.thorough();
    static const std::vector<std::string> ms = [] {
        std::vector<std::string> r;
        for (int i = 1; i <= 99; ++i) r.push_back(std::to_string(i));
        for (auto s : { "0", "123456789", "4503599627370497", "9007199254740993", "9007199254740992", "9007199254740991", "17976931348623157", "17976931348623158", "17976931348623159", "22250738585072014", "22250738585072011", "49406564584124654", "24703282292062327", "24703282292062328", "34028234663852886", "34028236692093846", "11754943508222875", "14012984643248170",
                        "18446744073709551615", "18446744073709551616", "99999999999999999999", "12345678901234567890123456789", "10000000000000000000000000001", "1000000000000000000000000000000000000000", "33333333333333333333", "66666666666666666667", "179769313486231580793", "72057594037927945", "7205759403792793200001", "89255000000000000001" }) r.push_back(s);
        return r;
    }();
    for (int e = -400; e <= 400; e += 20) R.unit(std::string("literals ") + tn<T>() + " e" + std::to_string(e), [&R, e] {
        for (int x = e; x < e + 20; ++x) for (auto& m : ms) {
            if (R.stop()) return;
            std::string es = "e" + std::to_string(x);
            literal<T>(R, m + es); literal<T>(R, "-" + m + (x % 2 ? "E" : "e") + (x >= 0 ? "+" : "") + std::to_string(x));
            literal<T>(R, m.substr(0, 1) + "." + (m.size() > 1 ? m.substr(1) : "0") + es);
            if (x > -40 && x < 0) literal<T>(R, "0." + std::string(std::size_t(-x), '0') + m);
            if (x >= 0 && x < 60) { literal<T>(R, m + std::string(std::size_t(x), '0')); literal<T>(R, "-" + m + std::string(std::size_t(x), '0') + ".0"); }
        }
    });
    for (int e = -420; e <= 420; e += 10) R.unit(std::string("zero significand ") + tn<T>() + " e" + std::to_string(e), [&R, e] {
        for (int x = e; x < e + 10; ++x) for (auto z : { "0", "-0", "0.0", "-0.0", "0.000" }) { literal<T>(R, z + std::string("e") + std::to_string(x)); if (x >= 0) literal<T>(R, z + std::string("E+") + std::to_string(x)); }
    });
    R.unit(std::string("integer literals ") + tn<T>(), [&R] {
        for (int b = 0; b <= 70; ++b) for (int d = -40; d <= 40; ++d) {
            __int128 p = (static_cast<__int128>(1) << b) + d;
            if (p < 0) continue;
            std::string s; unsigned __int128 m = static_cast<unsigned __int128>(p);
            do { s.insert(s.begin(), char('0' + int(m % 10))); m /= 10; } while (m);
            literal<T>(R, s); literal<T>(R, "-" + s); literal<T>(R, s + ".0"); literal<T>(R, "-" + s + ".0"); literal<T>(R, s + "e0"); literal<T>(R, s + ".5"); literal<T>(R, s + "e-1");
        }
        for (int x = -1100; x <= 1100; ++x) { literal<T>(R, std::to_string(x)); literal<T>(R, std::to_string(x) + ".25"); literal<T>(R, std::to_string(x) + "e3"); }
    });
    // exact midpoints between neighbouring values, and their neighbourhoods
    int E = 1 << Bits<double>::E;
    for (int e = 0; e < E - 1; e += 64) R.unit(std::string("midpoints ") + tn<T>() + " exponent " + std::to_string(e), [&R, e, E, th] {
        for (int f = e; f < e + 64 && f < E - 1; f += th ? 1 : 7) for (std::uint64_t m : { std::uint64_t(0), std::uint64_t(1), std::uint64_t(2), (std::uint64_t(1) << 52) - 1, (std::uint64_t(1) << 52) - 2, std::uint64_t(0x5555555555555), std::uint64_t(0x123456789abcd) }) {
            if (R.stop()) return;
            double x = of<double>(std::uint64_t(f) << 52 | m), y = of<double>((std::uint64_t(f) << 52 | m) + 1);
            if (!std::isfinite(y)) continue;
            char b[1200];
            long double mid = (static_cast<long double>(x) + static_cast<long double>(y)) / 2;
            std::snprintf(b, sizeof b, "%.*Le", 760, mid);      // exact: glibc prints all digits
            std::string s = b;
            auto ep = s.find('e');
            std::string digits = s.substr(0, ep), ex = s.substr(ep);
            while (digits.back() == '0' && digits[digits.size() - 2] != '.') digits.pop_back();
            if (digits.size() < 300 || th) {
                literal<T>(R, digits + ex);
                literal<T>(R, digits + "1" + ex);
                std::string lo = digits;
                std::size_t i = lo.size() - 1;
                if (lo[i] > '0') { --lo[i]; literal<T>(R, lo + "9" + ex); }
                literal<T>(R, "-" + digits + ex);
            }
            for (int pr : { 15, 16, 17, 18, 19, 20, 25 }) { std::snprintf(b, sizeof b, "%.*e", pr, x); literal<T>(R, b); }
        }
    });
}
template<typename T> static void hosts(Run& R) {
    R.unit(std::string("hosts ") + tn<T>(), [&R] {
        std::vector<T> vs;
        for (int i = 0; i < 60; ++i) { for (T v : { std::ldexp(T(1) / 3, i * 4 - 100), -std::ldexp(T(1), i - 30), T(i) + T(0.1), std::ldexp(T(1), i) }) if (std::isfinite(v)) vs.push_back(v); }
        for (T v : Spec<T>::list(0)) vs.push_back(v);
        auto rt = [&](auto obj, const char* what) {
            using O = decltype(obj);
            R.at(what, tn<T>());
            R.count(Run::hash(std::string(what) + tn<T>()));
            std::string s = persistence::write_to_string(obj);
            O a{}, b{};
            EqCtx c1, c2;
            if (!persistence::parse(s, a) || !Spec<O>::eq(obj, a, c1)) R.fail("parse does not restore the numbers of " + show(s));
            if (!persistence::deserialize(s, b) || !Spec<O>::eq(obj, b, c2)) R.fail("deserialize does not restore the numbers of " + show(s));
        };
        rt(vs, "vector");
        rt(std::set<T>(vs.begin(), vs.end()), "set");
        std::map<std::string, T> m; std::unordered_map<std::string, T> um;
        for (std::size_t i = 0; i < vs.size(); ++i) { m["k" + std::to_string(i)] = vs[i]; um["k" + std::to_string(i)] = vs[i]; }
        rt(m, "map"); rt(um, "unordered_map");
        for (T v : vs) { rt(std::array<T, 2>{v, -v}, "array"); rt(std::make_pair(v, -v), "pair"); rt(std::make_tuple(v, v, -v), "tuple"); rt(std::vector<std::vector<T>>{{v}, {-v, v}}, "nested vector"); }
    });
}
void define(Run& R) {
    values<float>(R); values<double>(R); literals<float>(R); literals<double>(R); hosts<float>(R); hosts<double>(R);
    if (R.thorough()) for (std::uint32_t hi = 0; hi < 4096; ++hi) R.unit("every float " + std::to_string(hi), [&R, hi] {   // all 2^32 floats through both readers
        for (std::uint32_t lo = 0; lo < (1u << 20) && !R.stop(); ++lo) value<float>(R, of<float>(hi << 20 | lo), false);
    });
}
