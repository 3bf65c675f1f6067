// JSON-Schema-level conformity of a document to a C++ type: kinds of values, integer ranges, lengths, members.
// (formats of dates and byte strings, names of enumerators and the float range are not expressed by the schemas)
#pragma once
#include "spec.hpp"
struct ConfCtx { bool overlap = false, dup = false; };
template<typename T, typename = void> struct Conf;
inline bool conf_int_value(const std::string& s, __int128& v, bool& huge) {       // mathematical integer?
    std::string m = s, ex;
    huge = false;
    long e = 0;
    if (auto p = m.find_first_of("eE"); p != std::string::npos) { e = std::strtol(m.c_str() + p + 1, nullptr, 10); m = m.substr(0, p); }
    bool neg = m[0] == '-'; if (neg) m = m.substr(1);
    std::string frac;
    if (auto p = m.find('.'); p != std::string::npos) { frac = m.substr(p + 1); m = m.substr(0, p); }
    std::string dig = m + frac; e -= long(frac.size());
    while (dig.size() > 1 && dig.back() == '0') { dig.pop_back(); ++e; }
    std::size_t z = 0; while (z + 1 < dig.size() && dig[z] == '0') ++z; dig = dig.substr(z);
    if (dig == "0") { v = 0; return true; }
    if (e < 0) return false;
    if (dig.size() + std::size_t(e) > 30) { huge = true; v = neg ? -1 : 1; return true; }
    v = 0;
    for (char c : dig) v = v * 10 + (c - '0');
    for (long i = 0; i < e; ++i) v *= 10;
    if (neg) v = -v;
    return true;
}
template<> struct Conf<std::nullptr_t> { static bool ok(const Node& n, ConfCtx&) { return n.k == Node::Null; } };
template<> struct Conf<bool> { static bool ok(const Node& n, ConfCtx&) { return n.k == Node::True || n.k == Node::False; } };
template<typename T> struct Conf<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static bool ok(const Node& n, ConfCtx&) {
        if (n.k != Node::Num) return false;
        __int128 v; bool huge;
        if (!conf_int_value(n.s, v, huge) || huge) return false;
        return v >= static_cast<__int128>(std::numeric_limits<T>::min()) && v <= static_cast<__int128>(std::numeric_limits<T>::max());
    }
};
template<typename T> struct Conf<T, std::enable_if_t<std::is_floating_point_v<T>>> { static bool ok(const Node& n, ConfCtx&) { return n.k == Node::Num; } };
struct ConfStr { static bool ok(const Node& n, ConfCtx&) { return n.k == Node::Str; } };
template<> struct Conf<std::string> : ConfStr {};
template<> struct Conf<byte_vector> : ConfStr {};
template<> struct Conf<timestamp> : ConfStr {};
#if __cplusplus >= 202002L
template<> struct Conf<ymd> : ConfStr {};
#endif
template<typename E> struct Conf<E, std::enable_if_t<std::is_enum_v<E> && !std::is_same_v<E, std::byte>>> {
    static bool ok(const Node& n, ConfCtx& c) { if constexpr (EnumInfo<E>::is_string) return n.k == Node::Str; else return Conf<std::underlying_type_t<E>>::ok(n, c); }
};
template<typename E> bool conf_all(const Node& n, ConfCtx& c) { bool r = true; for (auto& x : n.a) if (!Conf<E>::ok(x, c)) r = false; return r; }
template<typename E> struct Conf<std::vector<E>> { static bool ok(const Node& n, ConfCtx& c) { return n.k == Node::Arr && conf_all<E>(n, c); } };
template<typename E> struct Conf<std::set<E>> {
    static bool ok(const Node& n, ConfCtx& c) {
        if (n.k != Node::Arr || !conf_all<E>(n, c)) return false;
        for (std::size_t i = 0; i < n.a.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (node_equal(n.a[i], n.a[j], false) || (n.a[i].k == Node::Num && n.a[j].k == Node::Num && std::strtod(n.a[i].s.c_str(), nullptr) == std::strtod(n.a[j].s.c_str(), nullptr))) c.dup = true;
        return true;
    }
};
template<typename E, std::size_t N> struct Conf<std::array<E, N>> { static bool ok(const Node& n, ConfCtx& c) { return n.k == Node::Arr && n.a.size() == N && conf_all<E>(n, c); } };
template<typename... Es> struct ConfTuple {
    static bool ok(const Node& n, ConfCtx& c) {
        if (n.k != Node::Arr || n.a.size() != sizeof...(Es)) return false;
        std::size_t i = 0; bool r = true;
        ((r = Conf<Es>::ok(n.a[i++], c) && r), ...);
        return r;
    }
};
template<typename A, typename B> struct Conf<std::pair<A, B>> : ConfTuple<A, B> {};
template<typename... Es> struct Conf<std::tuple<Es...>> : ConfTuple<Es...> {};
template<typename E> struct ConfMap { static bool ok(const Node& n, ConfCtx& c) { return n.k == Node::Obj && conf_all<E>(n, c); } };
template<typename E> struct Conf<std::map<std::string, E>> : ConfMap<E> {};
template<typename E> struct Conf<std::unordered_map<std::string, E>> : ConfMap<E> {};
template<typename E> struct Conf<std::unique_ptr<E>> : Conf<E> {};
template<typename E> struct Conf<std::shared_ptr<E>> : Conf<E> {};
template<typename... Es> struct Conf<std::variant<Es...>> {
    static bool ok(const Node& n, ConfCtx& c) { int k = 0; ((k += Conf<Es>::ok(n, c)), ...); if (k > 1) c.overlap = true; return k > 0; }
};
struct ConfV {
    const Node& n; ConfCtx& c; bool r = true; std::set<std::string> known, required;
    template<typename T, typename B> void req(const char* k, T B::*) { known.insert(k); required.insert(k); if (auto* v = n.find(k)) { if (!Conf<T>::ok(*v, c)) r = false; } else r = false; }
    template<typename T, typename B> void def(const char* k, T B::*) { known.insert(k); if (auto* v = n.find(k)) if (!Conf<T>::ok(*v, c)) r = false; }
    template<typename T, typename B> void opt(const char* k, std::optional<T> B::*) { known.insert(k); if (auto* v = n.find(k)) if (!Conf<T>::ok(*v, c)) r = false; }
};
template<typename C> struct Conf<C, std::enable_if_t<has_fields<C>::value>> {
    static bool ok(const Node& n, ConfCtx& c) {
        if (n.k != Node::Obj) return false;
        ConfV v{ n, c };
        C::fields(v);
        for (auto& k : n.keys) if (!v.known.count(k.s)) v.r = false;
        return v.r;
    }
};
