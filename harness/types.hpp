// Program universe: enumerations and classes used as persisted types.
#pragma once
#include "spec.hpp"
#ifdef PERSISTENCE_BOOST_DESCRIBE
#include <boost/describe.hpp>
#endif
#include <persistence/enum.hpp>
#include <persistence/enum_utility.hpp>
#include <persistence/object.hpp>
#include <persistence/object_members.hpp>
#include <persistence/bytes.hpp>
#include <persistence/datetime.hpp>
#include <persistence/dictionary.hpp>

// ---------------------------------------------------------------- enumerations
enum class E8 : signed char { lo = -128, a = 0, b = 1, hi = 127 };
enum class EU8 : unsigned char { a = 0, b = 1, hi = 255 };
enum class E16 : short { a, b };
enum class EU16 : unsigned short { a, b };
enum EInt { EInt_x, EInt_y, EInt_z = 1000000, EInt_neg = -1000000 };
enum class E64 : long long { a, b };
enum class EU64 : unsigned long long { a, b };
enum class EStr : int { Unu, Du, Tri, Un, Unuo, space, unu, umlaut };
enum class EOne : unsigned char { only };
enum class ECustom : short { neg = -5, pos = 7, zero = 0 };
#ifdef PERSISTENCE_BOOST_DESCRIBE
enum class EBoost : int { Left, Right, Lef, left = 100, R = -3 };
BOOST_DESCRIBE_ENUM(EBoost, Left, Right, Lef, left, R)
template<> struct EnumInfo<EBoost> {
    static constexpr bool is_string = true;
    static const auto& names() {
        static const std::vector<std::pair<EBoost, std::string>> n = { {EBoost::Left, "Left"}, {EBoost::Right, "Right"}, {EBoost::Lef, "Lef"}, {EBoost::left, "left"}, {EBoost::R, "R"} };
        return n;
    }
};
#endif

#define ENUM_INFO(E, ...) template<> struct EnumInfo<E> { static constexpr bool is_string = true; \
    static const auto& names() { static const std::vector<std::pair<E, std::string>> n = { __VA_ARGS__ }; return n; } };
ENUM_INFO(EStr, {EStr::Unu, "Unu"}, {EStr::Du, "Du"}, {EStr::Tri, "Tri"}, {EStr::Un, "Un"}, {EStr::Unuo, "Unuo"}, {EStr::space, "a b"}, {EStr::unu, "unu"}, {EStr::umlaut, "\xc3\xbc\"\\"})
ENUM_INFO(EOne, {EOne::only, "only"})
ENUM_INFO(ECustom, {ECustom::neg, "minus five"}, {ECustom::pos, "plus seven"}, {ECustom::zero, "zero"})

namespace persistence {
    template<> struct enum_traits<EStr> {
        inline constexpr static auto converter = make_enum_converter({
            make_enum(EStr::Unu, "Unu"), make_enum(EStr::Du, "Du"), make_enum(EStr::Tri, "Tri"), make_enum(EStr::Un, "Un"),
            make_enum(EStr::Unuo, "Unuo"), make_enum(EStr::space, "a b"), make_enum(EStr::unu, "unu"), make_enum(EStr::umlaut, "\xc3\xbc\"\\") });
        static std::string_view to_string(EStr v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, EStr& v) { return converter.from_string(s, v); }
    };
    template<> struct enum_traits<EOne> {
        inline constexpr static auto converter = make_enum_converter({ make_enum(EOne::only, std::string_view("only")) });
        static std::string_view to_string(EOne v) { return converter.to_string(v); }
        static bool from_string(const std::string_view& s, EOne& v) { return converter.from_string(s, v); }
    };
    // user-supplied conversion without the converter table
    template<> struct enum_traits<ECustom> {
        static std::string_view to_string(ECustom v) { return v == ECustom::neg ? "minus five" : v == ECustom::pos ? "plus seven" : "zero"; }
        static bool from_string(const std::string_view& s, ECustom& v) {
            if (s == "minus five") v = ECustom::neg; else if (s == "plus seven") v = ECustom::pos; else if (s == "zero") v = ECustom::zero; else return false;
            return true;
        }
    };
}

// ---------------------------------------------------------------- classes
#define XM_R(n, ...) __VA_ARGS__ n{};
#define XM_O(n, ...) std::optional<__VA_ARGS__> n{};
#define XM_D(n, init, ...) __VA_ARGS__ n = init;
#define XM_N(key, n, ...) __VA_ARGS__ n{};
#define XP_R(n, ...) & MEMBER_VARIABLE(n)
#define XP_D(n, init, ...) & MEMBER_VARIABLE_DEFAULT(n)
#define XP_N(key, n, ...) & NAMED_MEMBER_VARIABLE(key, n)
#define XF_R(n, ...) f.req(#n, &Self::n);
#define XF_O(n, ...) f.opt(#n, &Self::n);
#define XF_D(n, init, ...) f.def(#n, &Self::n);
#define XF_N(key, n, ...) f.req(key, &Self::n);

#define CLS(C, L) struct C { using HarnessClass = C; using Self = C; L(XM_R, XM_O, XM_D, XM_N) \
    template<typename A> constexpr auto persist(A& ar) { return ar L(XP_R, XP_R, XP_D, XP_N); } \
    template<typename F> static void fields(F& f) { L(XF_R, XF_O, XF_D, XF_N) } };
#define CLSD(C, BASE, L) struct C : BASE { using HarnessClass = C; using Self = C; L(XM_R, XM_O, XM_D, XM_N) \
    template<typename A> constexpr auto persist(A& ar) { return BASE::persist(ar) L(XP_R, XP_R, XP_D, XP_N); } \
    template<typename F> static void fields(F& f) { BASE::fields(f); L(XF_R, XF_O, XF_D, XF_N) } };

template<typename T> using Vec = std::vector<T>;
template<typename T> using Set = std::set<T>;
template<typename T> using Map = std::map<std::string, T>;
template<typename T> using UMap = std::unordered_map<std::string, T>;
template<typename T> using Up = std::unique_ptr<T>;
template<typename T> using Sp = std::shared_ptr<T>;
template<typename T> using Ar2 = std::array<T, 2>;

// one to twenty-four members, all requirement kinds
#define L_C1(R, O, D, N) R(only, int)
CLS(C1, L_C1)
#define L_C1o(R, O, D, N) O(only, std::string)
CLS(C1o, L_C1o)
#define L_C0(R, O, D, N)
CLS(C0, L_C0)
#define L_CLong(R, O, D, N) R(a_member_whose_name_is_longer_than_any_small_string_buffer, int) O(a_member_whose_name_is_longer_than_any_small_string_buffer_can_hold, std::vector<int>) D(a_member_whose_name_is_longer_than_any_small_string_buffer_of_size_80_or_of_size_128_bytes_would_be_able_to_store_here_in_one_piece_at_all, 3, int) R(i, std::string)
CLS(CLong, L_CLong)
#define L_C1d(R, O, D, N) D(only, 7, int)
CLS(C1d, L_C1d)
#define L_C2(R, O, D, N) R(a, int) R(b, std::string)
CLS(C2, L_C2)
#define L_C2o(R, O, D, N) O(first, int) R(second, double)
CLS(C2o, L_C2o)
#define L_C2oo(R, O, D, N) O(x, bool) O(y, std::vector<int>)
CLS(C2oo, L_C2oo)
#define L_C2d(R, O, D, N) D(p, "dflt", std::string) R(q, int)
CLS(C2d, L_C2d)
#define L_C1s(R, O, D, N) R(text, std::string)
CLS(C1s, L_C1s)
#define L_C1so(R, O, D, N) O(text, std::string)
CLS(C1so, L_C1so)
#define L_C1sd(R, O, D, N) D(text, "t", std::string)
CLS(C1sd, L_C1sd)
#define L_C1v(R, O, D, N) R(items, std::vector<int>)
CLS(C1v, L_C1v)
#define L_C1c(R, O, D, N) R(inner, C1s)
CLS(C1c, L_C1c)
#define L_C1p(R, O, D, N) R(ptr, std::unique_ptr<C1v>)
CLS(C1p, L_C1p)
#define L_C2s(R, O, D, N) R(s, std::string) R(v, std::vector<std::string>)
CLS(C2s, L_C2s)
#define L_C2so(R, O, D, N) R(m, std::map<std::string, int>) O(e, EStr)
CLS(C2so, L_C2so)
#define L_C2c(R, O, D, N) R(x, C1s) R(y, C2s)
CLS(C2c, L_C2c)
#define L_C3s(R, O, D, N) R(c, C1v) R(t, std::string) R(p, std::unique_ptr<std::string>)
CLS(C3s, L_C3s)
#define L_C3(R, O, D, N) R(alpha, int) O(beta, std::string) D(gamma, 3.5, double)
CLS(C3, L_C3)
#define L_C4(R, O, D, N) R(a, int) R(e, int) R(b, int) R(c, int)
CLS(C4, L_C4)
#define L_C5(R, O, D, N) O(id, unsigned) O(name, std::string) R(id_, int) D(Name, "N", std::string) O(n, bool)
CLS(C5, L_C5)
#define L_C6(R, O, D, N) R(r1, int) O(o1, int) D(d1, 11, int) R(r2, std::string) O(o2, std::string) D(d2, "d", std::string)
CLS(C6, L_C6)
#define L_C8(R, O, D, N) R(bool_value, bool) R(char_value, char) R(short_value, short) R(long_value, long) R(float_value, float) R(double_value, double) R(string_value, std::string) R(enum_value, EStr)
CLS(C8, L_C8)
#define L_C8o(R, O, D, N) O(o1, int) O(o2, bool) O(o3, std::string) O(o4, double) O(o5, std::vector<int>) O(o6, EStr) O(o7, C2) O(o8, std::map<std::string, int>)
CLS(C8o, L_C8o)
#define L_CN(R, O, D, N) N("", empty, int) N("a/b", slash, int) N("m~n", tilde, std::string) N("0", zero, std::vector<int>) N("\xc3\xa9", accent, int) N("with space", space, int) N("q\"q", quote, int)
CLS(CNames, L_CN)
#define L_C24(R, O, D, N) R(m00, int) R(m01, int) R(m02, int) R(m03, int) R(m04, int) R(m05, int) R(m06, int) R(m07, int) R(m08, int) R(m09, int) R(m10, int) R(m11, int) \
    R(m12, int) R(m13, int) R(m14, int) R(m15, int) R(m16, int) R(m17, int) R(m18, int) R(m19, int) R(m20, int) R(m21, int) R(m22, int) R(m23, int)
CLS(C24, L_C24)
#define L_C10(R, O, D, N) R(a, int) R(aa, int) R(aaa, int) R(b, int) R(ab, int) R(ba, int) R(A, int) R(B, int) R(abc, int) R(acb, int)
CLS(C10, L_C10)
#define L_C70(R, O, D, N) O(k00, int) O(k01, int) O(k02, int) O(k03, int) O(k04, int) O(k05, int) O(k06, int) O(k07, int) O(k08, int) O(k09, int) O(k10, int) O(k11, int) O(k12, int) O(k13, int) \
    O(k14, int) O(k15, int) O(k16, int) O(k17, int) O(k18, int) O(k19, int) O(k20, int) O(k21, int) O(k22, int) O(k23, int) O(k24, int) O(k25, int) O(k26, int) O(k27, int) O(k28, int) O(k29, int) \
    R(k30, int) R(k31, int) R(k32, int) R(k33, int) R(k34, int) R(k35, int) R(k36, int) R(k37, int) R(k38, int) R(k39, int)
CLS(C40, L_C70)

// inheritance
#define L_Base(R, O, D, N) R(base_r, int) O(base_o, std::string) D(base_d, 5, int)
CLS(Base, L_Base)
#define L_Der(R, O, D, N) R(der_r, std::string) O(der_o, int) D(der_d, true, bool)
CLSD(Der, Base, L_Der)
#define L_Der2(R, O, D, N) R(der2_r, std::vector<int>) O(der2_o, EStr)
CLSD(Der2, Der, L_Der2)
#define L_B1(R, O, D, N) R(b, double)
CLS(B1, L_B1)
#define L_D1(R, O, D, N) R(d, double)
CLSD(D1, B1, L_D1)
#define L_D2(R, O, D, N) R(e, double)
CLSD(D2, D1, L_D2)

// classes holding containers and classes
#define L_Nest(R, O, D, N) R(c2, C2) O(c3, C3) R(vec, std::vector<C2>) R(map, std::map<std::string, C1>) R(ptr, std::unique_ptr<C2>) R(arr, std::array<C1, 2>)
CLS(Nest, L_Nest)
#define L_Nest2(R, O, D, N) R(nest, Nest) R(ders, std::vector<Der>) O(der2, Der2) R(sp, std::shared_ptr<Der>)
CLS(Nest2, L_Nest2)
struct Tree;
struct Tree {
    using HarnessClass = Tree;
    int value{};
    std::vector<Tree> children;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(value) & MEMBER_VARIABLE(children); }
    template<typename F> static void fields(F& f) { f.req("value", &Tree::value); f.req("children", &Tree::children); }
};
struct List {
    using HarnessClass = List;
    int v{};
    std::optional<std::unique_ptr<List>> next;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(next); }
    template<typename F> static void fields(F& f) { f.req("v", &List::v); f.opt("next", &List::next); }
};
struct MTree {
    using HarnessClass = MTree;
    std::string name;
    std::map<std::string, MTree> kids;
    std::optional<std::vector<std::shared_ptr<MTree>>> more;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(name) & MEMBER_VARIABLE(kids) & MEMBER_VARIABLE(more); }
    template<typename F> static void fields(F& f) { f.req("name", &MTree::name); f.req("kids", &MTree::kids); f.opt("more", &MTree::more); }
};

// matrix classes: every wrapper over every base type
#ifdef PERSISTENCE_BOOST_DESCRIBE
#define BOOST_ROW(R, W) R(w_boost, W<EBoost>)
#else
#define BOOST_ROW(R, W)
#endif
#if __cplusplus >= 202002L
#define DATE_ROW(R, W) R(w_date, W<ymd>)
#define DATE_ALT ymd,
#else
#define DATE_ROW(R, W)
#define DATE_ALT
#endif
#define MATRIX(R, W) R(w_bool, W<bool>) R(w_char, W<char>) R(w_schar, W<signed char>) R(w_uchar, W<unsigned char>) R(w_short, W<short>) R(w_ushort, W<unsigned short>) \
    R(w_int, W<int>) R(w_uint, W<unsigned>) R(w_long, W<long>) R(w_ulong, W<unsigned long>) R(w_llong, W<long long>) R(w_ullong, W<unsigned long long>) \
    R(w_float, W<float>) R(w_double, W<double>) R(w_string, W<std::string>) R(w_bytes, W<byte_vector>) R(w_ts, W<timestamp>) DATE_ROW(R, W) \
    R(w_e8, W<E8>) R(w_eu16, W<EU16>) R(w_e64, W<E64>) R(w_estr, W<EStr>) R(w_ecustom, W<ECustom>) BOOST_ROW(R, W)
template<typename T> using Id = T;
template<typename T> using Tup3 = std::tuple<T, std::string, T>;
template<typename T> using Pr = std::pair<T, T>;
#define L_MId(R, O, D, N) MATRIX(R, Id) R(w_null, std::nullptr_t)
CLS(MId, L_MId)
#define L_MOpt(R, O, D, N) MATRIX(O, Id)
CLS(MOpt, L_MOpt)
#define L_MVec(R, O, D, N) MATRIX(R, Vec)
CLS(MVec, L_MVec)
#define L_MSet(R, O, D, N) MATRIX(R, Set)
CLS(MSet, L_MSet)
#define L_MArr(R, O, D, N) MATRIX(R, Ar2)
CLS(MArr, L_MArr)
#define L_MMap(R, O, D, N) MATRIX(R, Map)
CLS(MMap, L_MMap)
#define L_MUMap(R, O, D, N) MATRIX(R, UMap)
CLS(MUMap, L_MUMap)
#define L_MUp(R, O, D, N) MATRIX(R, Up)
CLS(MUp, L_MUp)
#define L_MSp(R, O, D, N) MATRIX(R, Sp)
CLS(MSp, L_MSp)
#define L_MPr(R, O, D, N) MATRIX(R, Pr)
CLS(MPr, L_MPr)
#define L_MTup(R, O, D, N) MATRIX(R, Tup3)
CLS(MTup, L_MTup)

// wrapper over wrapper
#define WRAP(R, W) R(v, W<Vec<int>>) R(s, W<Set<int>>) R(a, W<Ar2<int>>) R(m, W<Map<int>>) R(u, W<UMap<int>>) R(up, W<Up<int>>) R(sp, W<Sp<int>>) R(p, W<Pr<int>>) R(t, W<Tup3<int>>) R(c, W<C2>) \
    R(vs, W<Vec<std::string>>) R(vc, W<Vec<C1o>>) R(upc, W<Up<C2oo>>) R(vb, W<Vec<bool>>)
#define L_WVec(R, O, D, N) WRAP(R, Vec)
CLS(WVec, L_WVec)
#define L_WArr(R, O, D, N) WRAP(R, Ar2)
CLS(WArr, L_WArr)
#define L_WMap(R, O, D, N) WRAP(R, Map)
CLS(WMap, L_WMap)
#define L_WUp(R, O, D, N) WRAP(R, Up)
CLS(WUp, L_WUp)
#define L_WSp(R, O, D, N) WRAP(R, Sp)
CLS(WSp, L_WSp)
#define L_WPr(R, O, D, N) WRAP(R, Pr)
CLS(WPr, L_WPr)
#define L_WTup(R, O, D, N) WRAP(R, Tup3)
CLS(WTup, L_WTup)
#define L_WOpt(R, O, D, N) WRAP(O, Id)
CLS(WOpt, L_WOpt)
#define L_WSet(R, O, D, N) R(v, Set<Vec<int>>) R(s, Set<Set<int>>) R(a, Set<Ar2<int>>) R(m, Set<Map<int>>) R(p, Set<Pr<int>>) R(t, Set<Tup3<int>>) R(vs, Set<Vec<std::string>>) R(ps, Set<std::pair<std::string, double>>)
CLS(WSet, L_WSet)

// variants (read through the DOM only)
using V1 = std::variant<int, std::string>;
using V2 = std::variant<bool, double, std::string, std::vector<int>>;
using V3 = std::variant<std::string, C2, std::vector<std::string>>;
using V4 = std::variant<C3, C2o, std::map<std::string, int>>;
using V5 = std::variant<std::nullptr_t, int, std::unique_ptr<std::string>>;
using V6 = std::variant<short, int, long long, double>;
using V7 = std::variant<EStr, DATE_ALT timestamp, byte_vector, std::string>;
using V8 = std::variant<std::vector<int>, std::vector<std::string>, std::vector<V1>>;
using V9 = std::variant<std::array<int, 2>, std::pair<int, std::string>, std::tuple<int, int, int>, std::vector<int>>;
#define L_CVar(R, O, D, N) R(v1, V1) O(v2, V2) R(vv, std::vector<V1>) R(mv, std::map<std::string, V2>) R(v3, V3)
CLS(CVar, L_CVar)
