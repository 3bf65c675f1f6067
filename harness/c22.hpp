// C22: a variant takes the first alternative that fully matches.
#pragma once
#include "cmp.hpp"
#include "sharing.hpp"

template<typename... Ts> using V = std::variant<Ts...>;
using std::string; using std::vector; using std::map; using std::pair; using std::tuple; using std::array; using std::unique_ptr; using std::shared_ptr;
#define L_CA(R, O, D, N) R(a, int)
CLS(CA, L_CA)
#define L_CAB(R, O, D, N) R(a, int) R(b, int)
CLS(CAB, L_CAB)
#define L_CAo(R, O, D, N) R(a, int) O(c, std::string)
CLS(CAo, L_CAo)
#define L_CEmptyish(R, O, D, N) O(x, int) O(y, int)
CLS(COpt, L_CEmptyish)
#define L_CAs(R, O, D, N) R(a, std::string)
CLS(CAs, L_CAs)
#define L_CAd(R, O, D, N) D(a, 9, int) R(z, bool)
CLS(CAd, L_CAd)
using VI = V<CAB, CA, CAs>;
#define L_CHold(R, O, D, N) R(k, int) R(v, VI) O(w, VI) R(l, vector<VI>)
CLS(CHold, L_CHold)
using VN = V<V<int, string>, vector<V<int, string>>, bool>;
using VSh = V<vector<SI>, map<string, SI>, string>;
#define L_CSh(R, O, D, N) R(p, SI) R(v, VSh) R(q, SI) O(w, VSh)
CLS(CSh, L_CSh)
// first alternative registers shared objects, then fails
using VFail = V<pair<SI, string>, pair<SI, SI>, vector<SI>>;
#define L_CFail(R, O, D, N) R(v, VFail) R(q, SI)
CLS(CFail, L_CFail)
// the alternative that is taken does not share what the failed one had read
using VForget = V<pair<SI, string>, tuple<SI, SI, SI>, vector<long>, vector<string>>;
#define L_CForget(R, O, D, N) R(v, VForget) O(w, VForget) R(q, SI)
CLS(CForget, L_CForget)
#define L_CForget2(R, O, D, N) R(p, SI) R(v, VForget) R(q, SI)
CLS(CForget2, L_CForget2)

// calls that count constructions and destructions of alternatives
template<typename T> void alternative(Run& R, const string& name, Node doc, std::size_t& first, std::size_t i, bool& found) {
    // reading into the alternative alone decides whether it matches
    string s = padded(jtext(doc));
    T x{};
    bool ok = false;
    try { ok = persistence::deserialize(s, x); } catch (...) { R.fail(name + ": reading into a single alternative throws"); return; }
    if (ok && !found) { found = true; first = i; }
}
template<typename T> struct Alts;
template<typename... Ts> struct Alts<V<Ts...>> {
    // the whole document is read into every alternative on its own; the variant must hold the first that matches
    static void check(Run& R, const string& name, Node doc) {
        std::size_t first = 0, i = 0; bool found = false;
        (alternative<Ts>(R, name, doc, first, i++, found), ...);
        string s = padded(jtext(doc));
        V<Ts...> v;
        bool ok = false;
        try { ok = persistence::deserialize(s, v); } catch (...) { R.fail("reading into the variant throws"); return; }
        if (ok != found) { R.fail(ok ? "variant accepts a document that no alternative accepts: " + show(s) : "variant refuses a document that an alternative accepts: " + show(s)); return; }
        if (ok && v.index() != first) R.fail("variant holds alternative " + std::to_string(v.index()) + " instead of " + std::to_string(first) + " for " + show(s));
    }
};
template<typename T> void docs_of(const std::function<void(const Node&)>& fn) {
    for (int level : { 0, 1 }) {
        std::size_t n = Spec<T>::count(level), lim = 60;
        for (std::size_t i = 0; i < n && i < lim; ++i) { T v = Spec<T>::at(n <= lim ? i : i * n / lim, level); EncCtx c; Node d = Spec<T>::enc(v, c); if (c.ok && node_count(d) < 60) fn(d); }
    }
}
template<typename T> void one(Run& R, const string& name, Node d, bool few) {
    if (R.stop() || left_open(d) || d.has_dup_keys()) return;
    if (check_read<T, false>(R, name, d, few)) {
        R.extra(0, 1);
        T v{}; DecCtx c; c.root = &d; Spec<T>::dec(d, v, c);
        check_write<T>(R, name, v);
    }
}
template<typename T> void variant(Run& R, const string& name, bool alts = true) {
    R.unit(name + " values", [&R, name] {
        for (int level : { 0, 1, 2 }) for (std::size_t i = 0; i < Spec<T>::count(level) && i < 3000; ++i) {
            if (R.stop()) return;
            T v = Spec<T>::at(i, level);
            check_write<T>(R, name, v);
            EncCtx c; Node d = Spec<T>::enc(v, c);
            if (c.ok) one<T>(R, name, d, true);
        }
    });
    R.unit(name + " generic documents", [&R, name] {
        generic_docs([&](Node& n) {
            one<T>(R, name, n, true);
            if constexpr (requires { Alts<T>::check(R, name, n); }) if (!R.stop() && !left_open(n)) Alts<T>::check(R, name, n);
        }, 3);
    });
    for (int part = 0; part < 4; ++part) R.unit(name + " edits " + std::to_string(part), [&R, name, part] {
        int k = 0;
        docs_of<T>([&](const Node& b) {
            if (k++ % 4 != part || k > (R.thorough() ? 400 : 120)) return;
            single_edits(b, [&](Node& n) {
                one<T>(R, name, n, true);
                if constexpr (requires { Alts<T>::check(R, name, n); }) if (!R.stop() && !left_open(n) && !has_key(n, "$ref")) Alts<T>::check(R, name, n);
            }, R.thorough() ? 60 : 20);
        });
    });
}
