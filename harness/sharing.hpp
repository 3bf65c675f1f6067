// Classes with shared pointers.
#pragma once
#include "types.hpp"
using SI = std::shared_ptr<int>;
#define L_SMix(R, O, D, N) R(direct, SI) O(opt, SI) R(vec, std::vector<SI>) R(map, std::map<std::string, SI>) R(pr, std::pair<SI, SI>) R(arr, std::array<SI, 2>) R(up, std::unique_ptr<SI>)
CLS(SMix, L_SMix)
using VSI = std::variant<std::string, SI>;
using VC = std::variant<std::vector<SI>, std::map<std::string, SI>>;
using VP = std::variant<std::shared_ptr<C2>, SI, std::string>;
#define L_SVar(R, O, D, N) R(v, VSI) O(w, VSI) R(list, std::vector<VSI>) R(c, VC) O(tup, std::tuple<SI, std::string, VSI>)
CLS(SVar, L_SVar)
#define L_SBase(R, O, D, N) R(b1, SI) O(b2, SI)
CLS(SBase, L_SBase)
#define L_SDer1(R, O, D, N) R(d1, SI) O(d2, SI)
CLSD(SDer, SBase, L_SDer1)
#define L_SNames(R, O, D, N) N("", empty, SI) N("a/b", slash, SI) N("m~n", tilde, SI) N("0", zero, std::vector<SI>) N("q\"q\\", quote, SI) N("\xc3\xa9", accent, SI) N("~1", esc, std::map<std::string, SI>)
CLS(SNames, L_SNames)
#define L_SOpt(R, O, D, N) O(o1, SI) O(o2, SI) O(o3, std::vector<SI>) O(o4, SI) O(o5, std::unique_ptr<std::vector<SI>>)
CLS(SOpt, L_SOpt)
#define L_STypes(R, O, D, N) R(i1, SI) R(s1, std::shared_ptr<std::string>) R(l1, std::shared_ptr<long>) R(i2, SI) R(s2, std::shared_ptr<std::string>) R(l2, std::shared_ptr<long>) R(i3, SI) R(l3, std::shared_ptr<long>)
CLS(STypes, L_STypes)
struct SG {       // DAG node
    using HarnessClass = SG;
    int id{};
    std::vector<std::shared_ptr<SG>> next;
    std::optional<std::shared_ptr<SG>> left;
    std::map<std::string, std::shared_ptr<SG>> named;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(id) & MEMBER_VARIABLE(next) & MEMBER_VARIABLE(left) & MEMBER_VARIABLE(named); }
    template<typename F> static void fields(F& f) { f.req("id", &SG::id); f.req("next", &SG::next); f.opt("left", &SG::left); f.req("named", &SG::named); }
};
#define L_SAlias(R, O, D, N) R(d, std::vector<std::shared_ptr<D1>>) R(b, std::vector<std::shared_ptr<B1>>) R(x, std::vector<std::shared_ptr<double>>)
CLS(SAlias, L_SAlias)
#define L_SAlias2(R, O, D, N) R(x, std::vector<std::shared_ptr<double>>) R(b, std::vector<std::shared_ptr<B1>>) R(d, std::vector<std::shared_ptr<D1>>)
CLS(SAlias2, L_SAlias2)
#define L_SSet(R, O, D, N) R(v, std::vector<SI>) R(s, std::set<SI>) R(m, std::map<std::string, std::set<SI>>) R(w, std::vector<SI>)
CLS(SSet, L_SSet)

