// Reference semantics of the persistence format, independent of the library:
//   enc  - the JSON structure an object must be written as
//   dec  - the value a JSON document denotes for a type (or the set of offending places)
//   eq   - deep equality (floating point by bits, optionally sharing structure)
//   at   - enumerated value domain of each type, by detail level (0 = richest)
#pragma once
#include "jv.hpp"
#include <array>
#include <charconv>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstddef>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

using byte_vector = std::vector<std::byte>;
using timestamp = std::chrono::time_point<std::chrono::system_clock>;
#if __cplusplus >= 202002L
using ymd = std::chrono::year_month_day;
#endif

struct Off { std::string path; std::size_t beg, end; };

struct DecCtx {
    bool dom = true;
    const Node* root = nullptr;
    std::vector<std::string> path;
    std::vector<Off> offs;
    std::map<std::pair<const Node*, std::type_index>, std::shared_ptr<void>> refs;

    std::string pointer() const {
        if (path.empty()) return "/";
        std::string o;
        for (auto& s : path) {
            o += '/';
            for (char c : s) { if (c == '~') o += "~0"; else if (c == '/') o += "~1"; else o += c; }
        }
        return o;
    }
    bool fail(std::size_t b, std::size_t e) { offs.push_back({pointer(), b, e}); return false; }
    // offending token of a value: whole token for scalars, opening bracket for containers
    bool fail(const Node& n) {
        return fail(n.beg, (n.k == Node::Arr || n.k == Node::Obj) ? n.beg + 1 : n.end);
    }
    bool fail_close(const Node& n) { return fail(n.end - 1, n.end); }
};

struct EncCtx {
    std::vector<std::string> path;
    std::map<std::pair<const void*, std::type_index>, std::string> refs;
    bool ok = true;        // false: the object has no JSON representation
    std::string pointer() const { DecCtx d; d.path = path; return d.pointer(); }
};

struct EqCtx {
    bool identity = false;   // require the same sharing structure
    std::map<std::pair<const void*, std::type_index>, const void*> ab, ba;
};

template<typename T, typename = void> struct Spec;

template<typename T> Node enc_in(const T& v, EncCtx& c, std::string seg) {
    c.path.push_back(std::move(seg));
    Node n = Spec<T>::enc(v, c);
    c.path.pop_back();
    return n;
}
template<typename T> bool dec_in(const Node& n, T& v, DecCtx& c, std::string seg) {
    c.path.push_back(std::move(seg));
    bool r = Spec<T>::dec(n, v, c);
    c.path.pop_back();
    return r;
}

inline int clamp_level(int l) { return l > 3 ? 3 : l; }

template<typename T> struct ListDomain {
    static const std::vector<T>& list(int level);
};

// ---------------------------------------------------------------- fundamental types
template<> struct Spec<std::nullptr_t> {
    using T = std::nullptr_t;
    static Node enc(const T&, EncCtx&) { return Node::null(); }
    static bool dec(const Node& n, T&, DecCtx& c) { return n.k == Node::Null ? true : c.fail(n); }
    static bool eq(const T&, const T&, EqCtx&) { return true; }
    static std::size_t count(int) { return 1; }
    static T at(std::size_t, int) { return nullptr; }
};
template<> struct Spec<bool> {
    using T = bool;
    static Node enc(const T& v, EncCtx&) { return Node::boolean(v); }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::True && n.k != Node::False) return c.fail(n);
        v = n.k == Node::True;
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx&) { return a == b; }
    static std::size_t count(int) { return 2; }
    static T at(std::size_t i, int) { return i % 2 == 0; }
};

template<typename T> bool int_from_literal(const std::string& s, T& v) {
    if (!is_int_literal(s)) return false;
    bool neg = s[0] == '-';
    unsigned __int128 m = 0;
    for (std::size_t i = neg; i < s.size(); ++i) {
        m = m * 10 + unsigned(s[i] - '0');
        if (m > (static_cast<unsigned __int128>(1) << 70)) return false;
    }
    __int128 x = neg ? -static_cast<__int128>(m) : static_cast<__int128>(m);
    if (x < static_cast<__int128>(std::numeric_limits<T>::min()) || x > static_cast<__int128>(std::numeric_limits<T>::max())) return false;
    v = static_cast<T>(x);
    return true;
}
template<typename T> std::string int_literal(T v) { return std::to_string(static_cast<std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>(v)); }

template<typename T> struct Spec<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static Node enc(const T& v, EncCtx&) { return Node::num(int_literal(v)); }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Num || !int_from_literal(n.s, v)) return c.fail(n);
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx&) { return a == b; }
    static const std::vector<T>& list(int level) {
        static const std::vector<T> L[4] = { build(0), build(1), build(2), build(3) };
        return L[clamp_level(level)];
    }
    static std::vector<T> build(int level) {
        using Lm = std::numeric_limits<T>;
        std::vector<T> r;
        std::set<T> seen;
        auto add = [&](__int128 x) {
            if (x < static_cast<__int128>(Lm::min()) || x > static_cast<__int128>(Lm::max())) return;
            if (seen.insert(static_cast<T>(x)).second) r.push_back(static_cast<T>(x));
        };
        if (level >= 3) { add(1); add(0); return r; }
        if (level == 2) { add(1); add(Lm::max()); add(Lm::min()); return r; }
        if (level == 1) { add(1); add(0); add(Lm::max()); add(Lm::min()); add(-1); add(42); add(100); return r; }
        add(1); add(0); add(-1); add(Lm::max()); add(Lm::min());
        for (int b = 0; b <= 64; ++b) for (int d = -1; d <= 1; ++d) {
            __int128 p = static_cast<__int128>(1) << b;
            add(p + d); add(-p + d);
        }
        __int128 t = 1;
        for (int e = 0; e < 20; ++e, t *= 10) { add(t); add(t - 1); add(-t); add(-t + 1); add(t * 5 + 3); }
        for (int x = -12; x <= 130; ++x) add(x);
        return r;
    }
    static std::size_t count(int level) { return list(level).size(); }
    static T at(std::size_t i, int level) { auto& l = list(level); return l[i % l.size()]; }
};

inline bool fits64(const std::string& s, __int128& x) {
    long long a; unsigned long long b;
    if (int_from_literal(s, a)) { x = a; return true; }
    if (int_from_literal(s, b)) { x = b; return true; }
    return false;
}
template<typename T> bool bits_equal(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }

template<typename T> struct Spec<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static Node enc(const T& v, EncCtx& c) {
        if (!std::isfinite(v)) { c.ok = false; return Node::null(); }
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", static_cast<double>(v));
        std::string s = b;
        if (is_int_literal(s)) s += ".0";
        return Node::num(s);
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Num) return c.fail(n);
        __int128 x;
        if (is_int_literal(n.s) && fits64(n.s, x)) {
            __int128 lim = static_cast<__int128>(1) << std::numeric_limits<T>::digits;
            if (x >= lim || x <= -lim) return c.fail(n);
            v = static_cast<T>(x);
            return true;
        }
        double d = std::strtod(n.s.c_str(), nullptr);
        if (!std::isfinite(d)) return c.fail(n);
        if (d > std::numeric_limits<T>::max() || d < std::numeric_limits<T>::lowest()) return c.fail(n);
        v = static_cast<T>(d);
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx&) { return bits_equal(a, b); }
    static const std::vector<T>& list(int level) {
        static const std::vector<T> L[4] = { build(0), build(1), build(2), build(3) };
        return L[clamp_level(level)];
    }
    static std::vector<T> build(int level) {
        using Lm = std::numeric_limits<T>;
        if (level >= 3) return { T(1.5), T(0) };
        if (level == 2) return { T(1.5), T(-0.0), T(1e10) };
        std::vector<T> r = { T(1.5), T(0), T(-0.0), T(0.1), T(-1), T(1e10), T(3.14159265358979) };
        if (level == 1) return r;
        for (T x : { Lm::min(), Lm::max(), Lm::lowest(), Lm::denorm_min(), Lm::epsilon(), T(1) / 3, T(1e21), T(1e-7), T(5e-324), T(123456789), T(9007199254740993.0), T(16777216), T(0.3), T(2.5e-5), T(1e22), T(1e23), T(4.35), T(0.1f), T(1e-320), T(2.2250738585072011e-308), T(1.7976931348623157e308) })
            if (std::isfinite(x)) { r.push_back(x); r.push_back(-x); }
        return r;
    }
    static std::size_t count(int level) { return list(level).size(); }
    static T at(std::size_t i, int level) { auto& l = list(level); return l[i % l.size()]; }
};

// ---------------------------------------------------------------- strings, bytes, dates
inline const std::vector<std::string>& string_list(int level) {
    static const std::vector<std::string> L[4] = {
        [] {
            std::vector<std::string> r = { "a", "", "hello", std::string("x\0y", 3), "\"", "\\", "/", "\b\f\n\r\t", "\x01\x1f\x7f", "\xc3\xa9", "\xe2\x82\xac",
                "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "null", "true", "0", "1.5", "{\"a\":1}", "[1]", "$ref", "/", "~0~1", " lead", "trail ", "\\u0041", "\\\\n",
                "a\"b\\c/d", std::string(1, '\0'), std::string("\0\0", 2), "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "<script>", "2001-02-03", "AAAA" };
            for (int n : { 2, 3, 7, 8, 9, 13, 14, 15, 16, 17, 20, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025 }) {
                std::string s;
                for (int i = 0; i < n; ++i) s += char('a' + i % 26);
                r.push_back(s);
            }
            return r;
        }(),
        { "a", "", "\xc3\xa9\"\\\n", std::string("x\0y", 3), "abcdefghijklmnopqrstuvwxyz0123456789" },
        { "a", "", "q\"\\" },
        { "a", "" },
    };
    return L[clamp_level(level)];
}
inline bool valid_utf8_dummy() { return true; }

template<> struct Spec<std::string> {
    using T = std::string;
    static Node enc(const T& v, EncCtx&) { return Node::str(v); }
    static bool dec(const Node& n, T& v, DecCtx& c) { if (n.k != Node::Str) return c.fail(n); v = n.s; return true; }
    static bool eq(const T& a, const T& b, EqCtx&) { return a == b; }
    static std::size_t count(int level) { return string_list(level).size(); }
    static T at(std::size_t i, int level) { auto& l = string_list(level); return l[i % l.size()]; }
};

inline const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
inline std::string ref_b64_encode(const byte_vector& b) {
    std::string o;
    std::size_t i = 0;
    auto u = [&](std::size_t k) { return static_cast<unsigned>(b[k]); };
    for (; i + 3 <= b.size(); i += 3) {
        unsigned x = u(i) << 16 | u(i + 1) << 8 | u(i + 2);
        o += B64[x >> 18]; o += B64[(x >> 12) & 63]; o += B64[(x >> 6) & 63]; o += B64[x & 63];
    }
    if (b.size() - i == 1) { unsigned x = u(i) << 16; o += B64[x >> 18]; o += B64[(x >> 12) & 63]; o += "=="; }
    else if (b.size() - i == 2) { unsigned x = u(i) << 16 | u(i + 1) << 8; o += B64[x >> 18]; o += B64[(x >> 12) & 63]; o += B64[(x >> 6) & 63]; o += "="; }
    return o;
}
// 1: well-formed, 0: malformed, 2: well-formed except for non-zero unused bits (left open)
inline int ref_b64_decode(const std::string& s, byte_vector& out) {
    out.clear();
    if (s.size() % 4) return 0;
    int open = 1;
    for (std::size_t i = 0; i < s.size(); i += 4) {
        unsigned v[4]; int pad = 0;
        for (int j = 0; j < 4; ++j) {
            char c = s[i + j];
            if (c == '=') { if (i + 4 != s.size() || j < 2) return 0; ++pad; v[j] = 0; continue; }
            if (pad) return 0;
            const char* q = c ? std::strchr(B64, c) : nullptr;
            if (!q) return 0;
            v[j] = unsigned(q - B64);
        }
        unsigned x = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
        if ((pad == 2 && (x & 0xffff)) || (pad == 1 && (x & 0xff))) open = 2;
        out.push_back(std::byte(x >> 16));
        if (pad < 2) out.push_back(std::byte(x >> 8));
        if (pad < 1) out.push_back(std::byte(x));
    }
    return open;
}
template<> struct Spec<byte_vector> {
    using T = byte_vector;
    static Node enc(const T& v, EncCtx&) { return Node::str(ref_b64_encode(v)); }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Str) return c.fail(n);
        if (!ref_b64_decode(n.s, v)) return c.fail(n);
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx&) { return a == b; }
    static T mk(std::size_t n, unsigned seed) { T r; for (std::size_t i = 0; i < n; ++i) r.push_back(std::byte(seed + i * 37)); return r; }
    static std::size_t count(int level) { return level <= 0 ? 70 : level == 1 ? 6 : 2; }
    static T at(std::size_t i, int level) {
        i %= count(level);
        if (level <= 0) return mk(i, unsigned(251 + i * 13));
        return mk(level == 1 ? i : i * 4, 0xF0);
    }
};

inline long long days_from_civil(long long y, unsigned m, unsigned d) {
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = unsigned(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<long long>(doe) - 719468;
}
inline void civil_from_days(long long z, long long& y, unsigned& m, unsigned& d) {
    z += 719468;
    long long era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = unsigned(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = static_cast<long long>(yoe) + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1;
    m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
}
inline bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline unsigned month_days(long long y, unsigned m) {
    static const unsigned D[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return m == 2 && leap(y) ? 29 : D[m - 1];
}
inline bool ref_digits(const std::string& s, std::size_t p, std::size_t n, unsigned& v) {
    v = 0;
    for (std::size_t i = 0; i < n; ++i) { char c = s[p + i]; if (c < '0' || c > '9') return false; v = v * 10 + unsigned(c - '0'); }
    return true;
}
inline bool ref_date(const std::string& s, unsigned& y, unsigned& m, unsigned& d) {
    if (s.size() < 10 || s[4] != '-' || s[7] != '-') return false;
    if (!ref_digits(s, 0, 4, y) || !ref_digits(s, 5, 2, m) || !ref_digits(s, 8, 2, d)) return false;
    return m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
}
inline constexpr long long TS_MAX = 9223372036LL;   // whole seconds representable by a 64-bit nanosecond clock
inline bool ref_datetime(const std::string& s, long long& t) {
    unsigned y, m, d, H, M, S;
    if (s.size() != 20 || !ref_date(s, y, m, d)) return false;
    if ((s[10] != 'T' && s[10] != ' ') || s[13] != ':' || s[16] != ':' || s[19] != 'Z') return false;
    if (!ref_digits(s, 11, 2, H) || !ref_digits(s, 14, 2, M) || !ref_digits(s, 17, 2, S)) return false;
    if (H > 23 || M > 59 || S > 59) return false;
    t = days_from_civil(y, m, d) * 86400 + H * 3600 + M * 60 + S;
    return t >= -TS_MAX && t <= TS_MAX;
}
inline std::string ref_date_str(long long y, unsigned m, unsigned d) { char b[64]; std::snprintf(b, sizeof b, "%04lld-%02u-%02u", y, m, d); return b; }
inline std::string ref_datetime_str(long long t) {
    long long days = t / 86400, sec = t % 86400;
    if (sec < 0) { sec += 86400; --days; }
    long long y; unsigned m, d;
    civil_from_days(days, y, m, d);
    char b[64];
    std::snprintf(b, sizeof b, "%04lld-%02u-%02uT%02lld:%02lld:%02lldZ", y, m, d, sec / 3600, sec / 60 % 60, sec % 60);
    return b;
}
inline long long ts_seconds(timestamp t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }
inline timestamp ts_from(long long s) { return timestamp(std::chrono::seconds(s)); }

template<> struct Spec<timestamp> {
    using T = timestamp;
    static Node enc(const T& v, EncCtx&) { return Node::str(ref_datetime_str(ts_seconds(v))); }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        long long t;
        if (n.k != Node::Str || !ref_datetime(n.s, t)) return c.fail(n);
        v = ts_from(t);
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx&) { return a == b; }
    static std::size_t count(int level) { return level <= 0 ? 16 : level == 1 ? 4 : 2; }
    static T at(std::size_t i, int level) {
        static const long long V[] = { 404183040, 0, -1, TS_MAX, -TS_MAX, 86399, 86400, -86400, 951782400, 951868799, 4107542400, 1000000000, 2147483647, 2147483648LL, -2147483649LL, 68169599 };
        return ts_from(V[i % count(level)]);
    }
};
#if __cplusplus >= 202002L
template<> struct Spec<ymd> {
    using T = ymd;
    static Node enc(const T& v, EncCtx& c) {
        int y = static_cast<int>(v.year());
        if (y < 0 || y > 9999) { c.ok = false; return Node::null(); }
        return Node::str(ref_date_str(y, unsigned(v.month()), unsigned(v.day())));
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        unsigned y, m, d;
        if (n.k != Node::Str || n.s.size() != 10 || !ref_date(n.s, y, m, d)) return c.fail(n);
        v = mk(int(y), m, d);
        return true;
    }
    static T mk(int y, unsigned m, unsigned d) { return T(std::chrono::year(y), std::chrono::month(m), std::chrono::day(d)); }
    static bool eq(const T& a, const T& b, EqCtx&) { return a == b; }
    static std::size_t count(int level) { return level <= 0 ? 12 : level == 1 ? 4 : 2; }
    static T at(std::size_t i, int level) {
        static const int V[][3] = { {1982,10,23}, {2000,2,29}, {0,1,1}, {9999,12,31}, {1900,2,28}, {1970,1,1}, {1969,12,31}, {1,1,1}, {99,12,31}, {999,9,9}, {1677,9,20}, {2262,4,12} };
        auto& v = V[i % count(level)];
        return mk(v[0], unsigned(v[1]), unsigned(v[2]));
    }
};
#endif

// ---------------------------------------------------------------- enumerations
template<typename E> struct EnumInfo { static constexpr bool is_string = false; };

template<typename E> struct Spec<E, std::enable_if_t<std::is_enum_v<E> && !std::is_same_v<E, std::byte>>> {
    using U = std::underlying_type_t<E>;
    static Node enc(const E& v, EncCtx& c) {
        if constexpr (EnumInfo<E>::is_string) {
            for (auto& p : EnumInfo<E>::names()) if (p.first == v) return Node::str(p.second);
            c.ok = false;
            return Node::null();
        } else return Node::num(int_literal(static_cast<U>(v)));
    }
    static bool dec(const Node& n, E& v, DecCtx& c) {
        if constexpr (EnumInfo<E>::is_string) {
            if (n.k == Node::Str) for (auto& p : EnumInfo<E>::names()) if (p.second == n.s) { v = p.first; return true; }
            return c.fail(n);
        } else {
            U u;
            if (!Spec<U>::dec(n, u, c)) return false;
            v = static_cast<E>(u);
            return true;
        }
    }
    static bool eq(const E& a, const E& b, EqCtx&) { return a == b; }
    static std::size_t count(int level) {
        if constexpr (EnumInfo<E>::is_string) { std::size_t n = EnumInfo<E>::names().size(); return level <= 1 ? n : n < 2 ? n : 2; }
        else return Spec<U>::count(level);
    }
    static E at(std::size_t i, int level) {
        if constexpr (EnumInfo<E>::is_string) return EnumInfo<E>::names()[i % count(level)].first;
        else return static_cast<E>(Spec<U>::at(i, level));
    }
};

// ---------------------------------------------------------------- containers
inline const std::vector<int>& length_ladder(int level) {
    static const std::vector<int> L[4] = {
        { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300 },
        { 0, 1, 2, 3, 4, 9, 10, 11, 17 },
        { 1, 0, 3 },
        { 1, 0 },
    };
    return L[clamp_level(level)];
}
inline const std::vector<std::string>& key_list() {
    static const std::vector<std::string> L = { "a", "b", "", "a/b", "~", "0", "\xc3\xa9", "q\"\\", std::string("k\0z", 3), "~1", "key with spaces", "\n" };
    return L;
}
inline std::string nth_key(std::size_t i) { return i < key_list().size() ? key_list()[i] : "key" + std::to_string(i); }

// shared layout: ladder lengths, then singletons of every element value, then pairs of neighbours
template<typename T, typename Elem> struct SeqDomain {
    static std::size_t inner(int level) { return Spec<Elem>::count(level + 1); }
    static std::size_t count(int level) {
        if (level >= 2) return length_ladder(level).size();
        return length_ladder(level).size() + inner(level) + (level == 0 ? inner(level) : 0);
    }
    // gives length and start of the element sequence
    static void pick(std::size_t i, int level, std::size_t& len, std::size_t& start) {
        auto& L = length_ladder(level);
        if (level >= 6) { len = 0; start = 0; return; }
        i %= count(level);
        if (i < L.size()) { len = std::size_t(L[i]); start = 0; return; }
        i -= L.size();
        if (i < inner(level)) { len = 1; start = i; return; }
        i -= inner(level);
        len = 2; start = i;
    }
};

template<typename E> struct Spec<std::vector<E>> {
    using T = std::vector<E>;
    using D = SeqDomain<T, E>;
    static Node enc(const T& v, EncCtx& c) {
        Node n = Node::arr();
        std::size_t i = 0;
        for (auto&& x : v) { if constexpr (std::is_same_v<E, bool>) { bool b = x; n.add(enc_in<bool>(b, c, std::to_string(i++))); } else n.add(enc_in<E>(x, c, std::to_string(i++))); }
        return n;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Arr) return c.fail(n);
        bool r = true;
        v.clear();
        for (std::size_t i = 0; i < n.a.size(); ++i) { E x{}; if (!dec_in(n.a[i], x, c, std::to_string(i))) r = false; v.push_back(std::move(x)); }
        return r;
    }
    static bool eq(const T& a, const T& b, EqCtx& c) {
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); ++i) if (!Spec<E>::eq(a[i], b[i], c)) return false;
        return true;
    }
    static std::size_t count(int level) { return D::count(level); }
    static T at(std::size_t i, int level) {
        std::size_t len, start;
        D::pick(i, level, len, start);
        T v;
        for (std::size_t j = 0; j < len; ++j) v.push_back(Spec<E>::at((start + j) % D::inner(level), level + 1));
        return v;
    }
};

template<typename E> struct Spec<std::set<E>> {
    using T = std::set<E>;
    using D = SeqDomain<T, E>;
    static Node enc(const T& v, EncCtx& c) {
        Node n = Node::arr();
        std::size_t i = 0;
        for (auto& x : v) n.add(enc_in<E>(x, c, std::to_string(i++)));
        return n;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Arr) return c.fail(n);
        bool r = true;
        v.clear();
        for (std::size_t i = 0; i < n.a.size(); ++i) { E x{}; if (!dec_in(n.a[i], x, c, std::to_string(i))) r = false; else v.insert(std::move(x)); }
        return r;
    }
    static bool eq(const T& a, const T& b, EqCtx& c) {
        if (a.size() != b.size()) return false;
        auto i = a.begin(); auto j = b.begin();
        for (; i != a.end(); ++i, ++j) if (!Spec<E>::eq(*i, *j, c)) return false;
        return true;
    }
    static std::size_t count(int level) { return D::count(level); }
    static T at(std::size_t i, int level) {
        std::size_t len, start;
        D::pick(i, level, len, start);
        T v;
        int lv = len > 8 ? 0 : level + 1;   // long sets need many distinct elements
        std::size_t n = Spec<E>::count(lv);
        for (std::size_t j = 0; j < len && j < n; ++j) v.insert(Spec<E>::at((start + j) % n, lv));
        return v;
    }
};

template<typename E, std::size_t N> struct Spec<std::array<E, N>> {
    using T = std::array<E, N>;
    static Node enc(const T& v, EncCtx& c) {
        Node n = Node::arr();
        for (std::size_t i = 0; i < N; ++i) n.add(enc_in<E>(v[i], c, std::to_string(i)));
        return n;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Arr) return c.fail(n);
        bool r = true;
        for (std::size_t i = 0; i < N && i < n.a.size(); ++i) if (!dec_in(n.a[i], v[i], c, std::to_string(i))) r = false;
        if (n.a.size() < N) r = c.fail_close(n);
        if (n.a.size() > N) { auto& x = n.a[N]; r = c.fail(x.beg, x.k >= Node::Arr ? x.beg + 1 : x.end); }
        return r;
    }
    static bool eq(const T& a, const T& b, EqCtx& c) {
        for (std::size_t i = 0; i < N; ++i) if (!Spec<E>::eq(a[i], b[i], c)) return false;
        return true;
    }
    static std::size_t count(int level) { return Spec<E>::count(level + 1) + (level == 0 ? N : 0); }
    static T at(std::size_t i, int level) {
        T v;
        std::size_t n = Spec<E>::count(level + 1);
        for (std::size_t j = 0; j < N; ++j) v[j] = Spec<E>::at((i + j) % n, level + 1);
        return v;
    }
};

template<typename T, typename... Es> struct TupleSpec {
    static constexpr std::size_t N = sizeof...(Es);
    template<std::size_t I> static void enc1(const T& v, EncCtx& c, Node& n) {
        if constexpr (I < N) { n.add(enc_in<std::tuple_element_t<I, T>>(std::get<I>(v), c, std::to_string(I))); enc1<I + 1>(v, c, n); }
    }
    static Node enc(const T& v, EncCtx& c) { Node n = Node::arr(); enc1<0>(v, c, n); return n; }
    template<std::size_t I> static bool dec1(const Node& n, T& v, DecCtx& c) {
        if constexpr (I < N) {
            bool r = I < n.a.size() ? dec_in(n.a[I], std::get<I>(v), c, std::to_string(I)) : true;
            bool q = dec1<I + 1>(n, v, c);
            return r && q;
        } else return true;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (n.k != Node::Arr) return c.fail(n);
        bool r = dec1<0>(n, v, c);
        if (n.a.size() < N) r = c.fail_close(n);
        if (n.a.size() > N) { auto& x = n.a[N]; r = c.fail(x.beg, x.k >= Node::Arr ? x.beg + 1 : x.end); }
        return r;
    }
    template<std::size_t I> static bool eq1(const T& a, const T& b, EqCtx& c) {
        if constexpr (I < N) return Spec<std::tuple_element_t<I, T>>::eq(std::get<I>(a), std::get<I>(b), c) && eq1<I + 1>(a, b, c);
        else return true;
    }
    static bool eq(const T& a, const T& b, EqCtx& c) { return eq1<0>(a, b, c); }
    static std::size_t count(int level) {
        std::size_t m = 1;
        ((m = std::max(m, Spec<Es>::count(level + 1))), ...);
        return level == 0 ? m + N : m;
    }
    template<std::size_t I> static void at1(T& v, std::size_t i, int level) {
        if constexpr (I < N) {
            using E = std::tuple_element_t<I, T>;
            std::get<I>(v) = Spec<E>::at((i + I) % Spec<E>::count(level + 1), level + 1);
            at1<I + 1>(v, i, level);
        }
    }
    static T at(std::size_t i, int level) { T v; at1<0>(v, i, level); return v; }
};
template<typename A, typename B> struct Spec<std::pair<A, B>> : TupleSpec<std::pair<A, B>, A, B> {};
template<typename... Es> struct Spec<std::tuple<Es...>> : TupleSpec<std::tuple<Es...>, Es...> {};

template<typename T> struct MapSpec {
    using E = typename T::mapped_type;
    using D = SeqDomain<T, E>;
    static Node enc(const T& v, EncCtx& c) {
        Node n = Node::obj();
        for (auto& p : v) { std::string k(p.first); n.add(k, enc_in<E>(p.second, c, k)); }
        return n;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if constexpr (std::is_same_v<typename T::key_type, std::string>) {
            if (n.k != Node::Obj) return c.fail(n);
            bool r = true;
            v.clear();
            for (std::size_t i = 0; i < n.a.size(); ++i) { E x{}; if (!dec_in(n.a[i], x, c, n.keys[i].s)) r = false; v[n.keys[i].s] = std::move(x); }
            return r;
        } else return c.fail(n);
    }
    static bool eq(const T& a, const T& b, EqCtx& c) {
        if (a.size() != b.size()) return false;
        for (auto& p : a) { auto j = b.find(p.first); if (j == b.end() || !Spec<E>::eq(p.second, j->second, c)) return false; }
        return true;
    }
    static std::size_t count(int level) { return D::count(level) + (level == 0 ? key_list().size() : 0); }
    static T at(std::size_t i, int level) {
        static const std::vector<std::string> keys = [] { std::vector<std::string> k; for (std::size_t j = 0; j < 400; ++j) k.push_back(nth_key(j)); return k; }();
        T v;
        if (i >= D::count(level)) {   // single special key
            v[typename T::key_type(keys[(i - D::count(level)) % key_list().size()])] = Spec<E>::at(0, level + 1);
            return v;
        }
        std::size_t len, start;
        D::pick(i, level, len, start);
        for (std::size_t j = 0; j < len; ++j) v[typename T::key_type(keys[j])] = Spec<E>::at((start + j) % D::inner(level), level + 1);
        return v;
    }
};
template<typename E> struct Spec<std::map<std::string, E>> : MapSpec<std::map<std::string, E>> {};
template<typename E> struct Spec<std::unordered_map<std::string, E>> : MapSpec<std::unordered_map<std::string, E>> {};
template<typename E> struct Spec<std::map<std::string_view, E>> : MapSpec<std::map<std::string_view, E>> {};
template<typename E> struct Spec<std::unordered_map<std::string_view, E>> : MapSpec<std::unordered_map<std::string_view, E>> {};

// ---------------------------------------------------------------- pointers
inline const Node* resolve_pointer(const Node* root, const std::string& p) {
    if (p.empty()) return root;
    if (p[0] != '/') return nullptr;
    const Node* n = root;
    std::size_t i = 0;
    while (i < p.size()) {
        ++i;
        std::string seg;
        for (; i < p.size() && p[i] != '/'; ++i) {
            if (p[i] == '~') {
                if (i + 1 >= p.size() || (p[i + 1] != '0' && p[i + 1] != '1')) return nullptr;
                seg += p[++i] == '0' ? '~' : '/';
            } else seg += p[i];
        }
        if (n->k == Node::Obj) n = n->find(seg);
        else if (n->k == Node::Arr) {
            if (seg.empty() || seg.size() > 9 || (seg.size() > 1 && seg[0] == '0')) return nullptr;
            std::size_t x = 0;
            for (char ch : seg) { if (ch < '0' || ch > '9') return nullptr; x = x * 10 + std::size_t(ch - '0'); }
            n = x < n->a.size() ? &n->a[x] : nullptr;
        } else n = nullptr;
        if (!n) return nullptr;
    }
    return n;
}

template<typename P, typename E> struct PtrSpecBase {
    static bool same(const P& a, const P& b, EqCtx& c) {
        if (!a || !b) return !a && !b;
        return Spec<E>::eq(*a, *b, c);
    }
};
template<typename E> struct Spec<std::unique_ptr<E>> : PtrSpecBase<std::unique_ptr<E>, E> {
    using T = std::unique_ptr<E>;
    static Node enc(const T& v, EncCtx& c) { if (!v) { c.ok = false; return Node::null(); } return Spec<E>::enc(*v, c); }
    static bool dec(const Node& n, T& v, DecCtx& c) { v = std::make_unique<E>(); return Spec<E>::dec(n, *v, c); }
    static bool eq(const T& a, const T& b, EqCtx& c) { return Spec::same(a, b, c); }
    static std::size_t count(int level) { return Spec<E>::count(level); }
    static T at(std::size_t i, int level) { return std::make_unique<E>(Spec<E>::at(i, level)); }
};
template<typename E> struct Spec<std::shared_ptr<E>> : PtrSpecBase<std::shared_ptr<E>, E> {
    using T = std::shared_ptr<E>;
    static Node enc(const T& v, EncCtx& c) {
        if (!v) { c.ok = false; return Node::null(); }
        auto key = std::make_pair(static_cast<const void*>(v.get()), std::type_index(typeid(E)));
        auto it = c.refs.find(key);
        if (it != c.refs.end()) { Node n = Node::obj(); n.add("$ref", Node::str(it->second)); return n; }
        Node n = Spec<E>::enc(*v, c);
        c.refs[key] = c.pointer();
        return n;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) {
        if (c.dom && n.k == Node::Obj) {
            if (const Node* r = n.find("$ref")) {
                if (r->k != Node::Str) return c.fail(n);
                const Node* t = resolve_pointer(c.root, r->s);
                if (!t) return c.fail(n);
                auto it = c.refs.find({t, std::type_index(typeid(E))});
                if (it == c.refs.end()) return c.fail(n);
                v = std::static_pointer_cast<E>(it->second);
                return true;
            }
        }
        v = std::make_shared<E>();
        if (!Spec<E>::dec(n, *v, c)) return false;
        c.refs[{&n, std::type_index(typeid(E))}] = v;
        return true;
    }
    static bool eq(const T& a, const T& b, EqCtx& c) {
        if (!a || !b) return !a && !b;
        if (c.identity) {
            auto ka = std::make_pair(static_cast<const void*>(a.get()), std::type_index(typeid(E)));
            auto kb = std::make_pair(static_cast<const void*>(b.get()), std::type_index(typeid(E)));
            auto i = c.ab.find(ka); auto j = c.ba.find(kb);
            if ((i == c.ab.end()) != (j == c.ba.end())) return false;
            if (i != c.ab.end()) return i->second == b.get() && j->second == a.get();
            c.ab[ka] = b.get(); c.ba[kb] = a.get();
        }
        return Spec<E>::eq(*a, *b, c);
    }
    static std::size_t count(int level) { return Spec<E>::count(level); }
    static T at(std::size_t i, int level) { return std::make_shared<E>(Spec<E>::at(i, level)); }
};

// ---------------------------------------------------------------- variants
template<typename... Es> struct Spec<std::variant<Es...>> {
    using T = std::variant<Es...>;
    static Node enc(const T& v, EncCtx& c) { return std::visit([&](auto& x) { return Spec<std::decay_t<decltype(x)>>::enc(x, c); }, v); }
    template<std::size_t I> static bool try1(const Node& n, T& v, DecCtx& c) {
        if constexpr (I < sizeof...(Es)) {
            using E = std::variant_alternative_t<I, T>;
            E x{};
            auto refs = c.refs; auto offs = c.offs;
            if (Spec<E>::dec(n, x, c)) { v.template emplace<I>(std::move(x)); return true; }
            c.refs = refs; c.offs = offs;
            return try1<I + 1>(n, v, c);
        } else return false;
    }
    static bool dec(const Node& n, T& v, DecCtx& c) { return try1<0>(n, v, c) ? true : c.fail(n); }
    template<std::size_t I> static bool eq1(const T& a, const T& b, EqCtx& c) {
        if constexpr (I < sizeof...(Es)) {
            if (a.index() == I) return Spec<std::variant_alternative_t<I, T>>::eq(std::get<I>(a), std::get<I>(b), c);
            return eq1<I + 1>(a, b, c);
        } else return true;
    }
    static bool eq(const T& a, const T& b, EqCtx& c) { return a.index() == b.index() && eq1<0>(a, b, c); }
    static std::size_t count(int level) { return (Spec<Es>::count(level + 1) + ...); }
    template<std::size_t I> static T at1(std::size_t i, int level) {
        using E = std::variant_alternative_t<I, T>;
        std::size_t n = Spec<E>::count(level + 1);
        if constexpr (I + 1 < sizeof...(Es)) if (i >= n) return at1<I + 1>(i - n, level);
        return T(std::in_place_index<I>, Spec<E>::at(i % n, level + 1));
    }
    static T at(std::size_t i, int level) { return at1<0>(i % count(level), level); }
};

// ---------------------------------------------------------------- classes
// A class offers: template<class F> static void fields(F& f), calling f.req(name, &C::m), f.opt(name, &C::m), f.def(name, &C::m)
template<typename C> struct EncV {
    const C& o; EncCtx& c; Node& n;
    template<typename T, typename B> void req(const char* k, T B::* m) { n.add(k, enc_in<T>(o.*m, c, k)); }
    template<typename T, typename B> void def(const char* k, T B::* m) { req(k, m); }
    template<typename T, typename B> void opt(const char* k, std::optional<T> B::* m) { if (o.*m) n.add(k, enc_in<T>(*(o.*m), c, k)); }
};
template<typename C> struct DecV {
    C& o; DecCtx& c; const Node& n; bool r = true; bool missing = false; std::set<std::string> known;
    template<typename T, typename B> void req(const char* k, T B::* m) {
        known.insert(k);
        if (auto* v = n.find(k)) { if (!dec_in(*v, o.*m, c, k)) r = false; } else missing = true;
    }
    template<typename T, typename B> void def(const char* k, T B::* m) { known.insert(k); if (auto* v = n.find(k)) if (!dec_in(*v, o.*m, c, k)) r = false; }
    template<typename T, typename B> void opt(const char* k, std::optional<T> B::* m) {
        known.insert(k);
        if (auto* v = n.find(k)) { T x{}; if (!dec_in(*v, x, c, k)) r = false; o.*m = std::move(x); } else o.*m = std::nullopt;
    }
};
template<typename C> struct EqV {
    const C& a; const C& b; EqCtx& c; bool r = true;
    template<typename T, typename B> void req(const char*, T B::* m) { r = r && Spec<T>::eq(a.*m, b.*m, c); }
    template<typename T, typename B> void def(const char* k, T B::* m) { req(k, m); }
    template<typename T, typename B> void opt(const char*, std::optional<T> B::* m) {
        auto& x = a.*m; auto& y = b.*m;
        if (!x || !y) r = r && !x && !y; else r = r && Spec<T>::eq(*x, *y, c);
    }
};
struct CntV {
    int level; std::size_t max = 1, nopt = 0;
    template<typename T, typename B> void req(const char*, T B::*) { max = std::max(max, Spec<T>::count(level + 1)); }
    template<typename T, typename B> void def(const char* k, T B::* m) { req(k, m); }
    template<typename T, typename B> void opt(const char*, std::optional<T> B::*) { max = std::max(max, Spec<T>::count(level + 1)); ++nopt; }
};
template<typename C> struct AtV {
    C& o; int level; std::size_t i; long mask; std::size_t f = 0, q = 0;
    template<typename T, typename B> void req(const char*, T B::* m) { o.*m = Spec<T>::at((i + f) % Spec<T>::count(level + 1), level + 1); ++f; }
    template<typename T, typename B> void def(const char* k, T B::* m) { req(k, m); }
    template<typename T, typename B> void opt(const char*, std::optional<T> B::* m) {
        bool on = level >= 5 ? false : mask >= 0 ? (mask >> q) & 1 : (i + f) % 3 != 2;
        if (on) (o.*m).emplace(Spec<T>::at((i + f) % Spec<T>::count(level + 1), level + 1));
        ++f; ++q;
    }
};
template<typename C, typename = void> struct has_fields : std::false_type {};
template<typename C> struct has_fields<C, std::void_t<typename C::HarnessClass>> : std::true_type {};

template<typename C> struct Spec<C, std::enable_if_t<has_fields<C>::value>> {
    static Node enc(const C& o, EncCtx& c) { Node n = Node::obj(); EncV<C> v{o, c, n}; C::fields(v); return n; }
    static bool dec(const Node& n, C& o, DecCtx& c) {
        if (n.k != Node::Obj) return c.fail(n);
        DecV<C> v{o, c, n, true, false, {}};
        C::fields(v);
        if (v.missing) v.r = c.fail_close(n);
        if (!c.dom) for (auto& k : n.keys) if (!v.known.count(k.s)) v.r = c.fail(k.beg, k.end);
        return v.r;
    }
    static bool eq(const C& a, const C& b, EqCtx& c) { EqV<C> v{a, b, c}; C::fields(v); return v.r; }
    static std::size_t rot(int level) { CntV v{level}; C::fields(v); return v.max; }
    static std::size_t masks(int level) { CntV v{level}; C::fields(v); return v.nopt == 0 || level >= 2 ? 0 : std::size_t(1) << std::min<std::size_t>(v.nopt, level == 0 ? 7 : 2); }
    static std::size_t count(int level) {
        static std::size_t K[8] = {};   // filled on demand (recursive classes)
        if (level > 7) level = 7;
        if (!K[level]) K[level] = level >= 5 ? 1 : rot(level) + masks(level);
        return K[level];
    }
    static C at(std::size_t i, int level) {
        i %= count(level);
        C o;
        static std::size_t R[8] = {};
        int lv = level > 7 ? 7 : level;
        if (!R[lv]) R[lv] = lv >= 5 ? 1 : rot(lv);
        std::size_t r = R[lv];
        AtV<C> v{o, level, i < r ? i : 0, i < r ? -1L : long(i - r)};
        C::fields(v);
        return o;
    }
};
