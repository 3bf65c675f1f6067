// C12: sharing structure. The abstract state is an acyclic object graph: a container shape plus a set partition of its pointer slots
// (or a DAG over class objects). All of them up to the bound are built, written, compared with the reference encoding and read back.
#include "core.hpp"
#include <persistence/exception.hpp>
#include "sharing.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

template<typename T> static bool check(Run& R, const T& v, const std::string& id, bool all = true, bool text_only = false) {
    R.at(id);
    EncCtx ec;
    Node n = Spec<T>::enc(v, ec);
    std::string want = jtext(n);
    R.count(Run::hash(id + want)); R.states(1);
    std::string w;
    try {
        if (!persistence::write_to_string(v, w)) { R.fail("not written"); return false; }
        if (w != want) { R.fail("written as " + show(w) + " instead of " + show(want)); return false; }
        rapidjson::Document d;
        if (!persistence::serialize_to_document(v, d)) { R.fail("not serialized"); return false; }
        std::string s = persistence::document_to_string(d);
        if (s != want) { R.fail("serialized as " + show(s) + " instead of " + show(want)); return false; }
        if (text_only) return true;
        auto ver = [&](const T& x, const char* how) {
            R.traces(1);
            EqCtx q; q.identity = true;
            if (Spec<T>::eq(v, x, q)) return true;
            EncCtx e2; Node m = Spec<T>::enc(x, e2);
            R.fail(std::string(how) + ": sharing or contents differ from the original; " + show(want) + " came back as " + show(jtext(m)));
            return false;
        };
        { T x{}; if (!persistence::deserialize(d, x)) { R.fail("document refused: " + show(want)); return false; } if (!ver(x, "deserialize(document)")) return false; }
        { T x{}; if (!persistence::deserialize(w, x)) { R.fail("text refused: " + show(want)); return false; } if (!ver(x, "deserialize(text)")) return false; }
        if (all) {
            { T x{}; std::string t; t.reserve(w.size() + 64); t = w; if (!persistence::deserialize(std::move(t), x)) { R.fail("temporary text refused: " + show(want)); return false; } if (!ver(x, "deserialize(temporary text)")) return false; }
            if (!ver(persistence::deserialize<T>(w), "deserialize<T>(text)")) return false;
            if (!ver(persistence::deserialize<T>(d), "deserialize<T>(document)")) return false;
        }
    } catch (const std::exception& e) { R.fail(std::string("throws ") + e.what() + " for " + show(want)); return false; }
    return true;
}
// all restricted growth strings of length n
static void partitions(std::size_t n, const std::function<void(const std::vector<int>&)>& fn) {
    std::vector<int> a(n, 0);
    std::function<void(std::size_t, int)> rec = [&](std::size_t i, int m) {
        if (i == n) { fn(a); return; }
        for (int k = 0; k <= m; ++k) { a[i] = k; rec(i + 1, std::max(m, k + 1)); }
    };
    rec(0, 0);
}
static std::string str(const std::vector<int>& a) { std::string s; for (int x : a) s += std::to_string(x) + (x > 9 ? "," : ""); return s; }

template<typename E> struct Pool {
    std::vector<std::shared_ptr<E>> p; const std::vector<int>* a; std::size_t i = 0; bool same;
    Pool(const std::vector<int>& a, bool same) : a(&a), same(same) { int m = 0; for (int x : a) m = std::max(m, x + 1); for (int k = 0; k < m; ++k) p.push_back(std::make_shared<E>(Spec<E>::at(same ? 0 : std::size_t(k), 2))); }
    std::shared_ptr<E> next() { return p[std::size_t((*a)[i++])]; }
};
// T built by fill(T&, pool); splits the partitions over units by the first slots
template<typename T, typename E> static void shape(Run& R, const std::string& name, std::size_t slots, std::function<void(T&, Pool<E>&)> fill) {
    std::size_t parts = slots >= 8 ? 24 : slots >= 6 ? 4 : 1;
    for (std::size_t u = 0; u < parts; ++u) for (bool same : { false, true }) R.unit(name + " slots=" + std::to_string(slots) + (same ? " equal contents" : "") + " part " + std::to_string(u), [&R, name, slots, fill, u, parts, same] {
        std::size_t k = 0;
        partitions(slots, [&](const std::vector<int>& a) {
            if (R.stop() || k++ % parts != u) return;
            Pool<E> p(a, same);
            T v{};
            fill(v, p);
            R.transitions(slots);
            if (k == 1) { std::string s; if (persistence::write_to_string(v, s)) R.sample(name + " " + show(s, 200)); }
            if (!check(R, v, name + " partition " + str(a) + (same ? " equal contents" : ""), slots < 7)) return;
            // into an object whose pointers refer to one object (or to as many as possible), which others hold as well
            if (same) return;
            std::string w = persistence::write_to_string(v);
            for (bool one : { true, false }) {
                std::vector<int> b(slots, 0);
                if (!one) for (std::size_t i = 0; i < slots; ++i) b[i] = int(i);
                Pool<E> q(b, false);
                std::vector<std::string> before;
                auto texts = [&] { std::vector<std::string> t; for (auto& x : q.p) { EncCtx e; t.push_back(jtext(Spec<E>::enc(*x, e))); } return t; };
                before = texts();
                T x{};
                fill(x, q);
                R.traces(1);
                if (!persistence::deserialize(w, x)) { R.fail("refused when read into an object in use: " + show(w)); return; }
                EqCtx c; c.identity = true;
                if (!Spec<T>::eq(v, x, c)) { EncCtx e2; Node m = Spec<T>::enc(x, e2); R.fail("sharing or contents differ when read into an object in use; " + show(w) + " came back as " + show(jtext(m))); return; }
                if (texts() != before) { R.fail("reading into an object in use changes objects that others hold; " + show(w)); return; }
            }
        });
    });
}
template<typename E> static void elem(Run& R, const char* n, std::size_t slots) {
    using P = std::shared_ptr<E>;
    shape<std::vector<P>, E>(R, std::string("vector<shared ") + n + ">", slots, [slots](auto& v, auto& p) { for (std::size_t i = 0; i < slots; ++i) v.push_back(p.next()); });
}
static bool set_check(Run& R, const SSet& v, const std::string& id) {
    R.at(id);
    EncCtx ec;
    Node n = Spec<SSet>::enc(v, ec);
    std::string want = jtext(n);
    R.count(Run::hash(id)); R.states(1);
    std::string w;
    if (!persistence::write_to_string(v, w) || w != want) { R.fail("written as " + show(w) + " instead of " + show(want)); return false; }
    rapidjson::Document d;
    if (!persistence::serialize_to_document(v, d) || persistence::document_to_string(d) != want) { R.fail("serialized differently from " + show(want)); return false; }
    for (int mode = 0; mode < 2; ++mode) {
        SSet x;
        if (!(mode ? persistence::deserialize(w, x) : persistence::deserialize(d, x))) { R.fail("refused: " + show(want)); return false; }
        R.traces(1);
        std::map<int, const int*> m; std::map<const int*, int> back; bool ok = true;
        auto see = [&](const SI& p) { if (!p) { ok = false; return; } auto i = m.emplace(*p, p.get()); auto j = back.emplace(p.get(), *p); if (i.first->second != p.get() || j.first->second != *p) ok = false; };
        auto labels = [](const std::set<SI>& s) { std::set<int> r; for (auto& p : s) if (p) r.insert(*p); return r; };
        for (auto& p : x.v) see(p);
        for (auto& p : x.s) see(p);
        for (auto& q : x.m) for (auto& p : q.second) see(p);
        for (auto& p : x.w) see(p);
        if (!ok || x.v.size() != v.v.size() || x.w.size() != v.w.size() || x.s.size() != v.s.size() || labels(x.s) != labels(v.s) || x.m.size() != v.m.size()) { R.fail("sharing differs after reading " + show(want)); return false; }
        for (std::size_t i = 0; i < v.v.size(); ++i) if (*x.v[i] != *v.v[i]) { R.fail("vector element differs after reading " + show(want)); return false; }
        for (std::size_t i = 0; i < v.w.size(); ++i) if (*x.w[i] != *v.w[i]) { R.fail("vector element differs after reading " + show(want)); return false; }
        for (auto& q : v.m) if (!x.m.count(q.first) || labels(x.m[q.first]) != labels(q.second) || x.m[q.first].size() != q.second.size()) { R.fail("set in dictionary differs after reading " + show(want)); return false; }
    }
    return true;
}
struct SLong {
    using HarnessClass = SLong;
    SI m1, m2, m4; std::vector<SI> m3; std::map<std::string, SI> m5;
#define N1 "a_member_name_of_more_than_twenty_characters_a"
#define N2 "a_member_name_of_more_than_twenty_characters_b"
#define N3 "another/member_name_with_special~characters_and_a_length_of_more_than_sixty_four_bytes_or_so_"
#define N4 N3 N3 N3 N1
#define N5 N3 N3 N3 N2
    template<typename A> constexpr auto persist(A& ar) { return ar & NAMED_MEMBER_VARIABLE(N1, m1) & NAMED_MEMBER_VARIABLE(N2, m2) & NAMED_MEMBER_VARIABLE(N3, m3) & NAMED_MEMBER_VARIABLE(N4, m4) & NAMED_MEMBER_VARIABLE(N5, m5); }
    template<typename F> static void fields(F& f) { f.req(N1, &SLong::m1); f.req(N2, &SLong::m2); f.req(N3, &SLong::m3); f.req(N4, &SLong::m4); f.req(N5, &SLong::m5); }
};
void define(Run& R) {
    bool th = R.thorough();
    R.case_timeout = 60;
    elem<int>(R, "int", th ? 10 : 8);
    elem<std::string>(R, "string", 6); elem<C2>(R, "C2", 6); elem<std::vector<int>>(R, "vector<int>", 5); elem<std::map<std::string, int>>(R, "map", 5); elem<EStr>(R, "EStr", 5);
    elem<ymd>(R, "date", 5); elem<timestamp>(R, "timestamp", 5); elem<byte_vector>(R, "bytes", 5); elem<std::tuple<int, std::string>>(R, "tuple", 5); elem<Der>(R, "Der", 5); elem<std::array<int, 2>>(R, "array", 5);
    elem<C2oo>(R, "C2oo", 5); elem<bool>(R, "bool", 5); elem<double>(R, "double", 5); elem<char>(R, "char", 5); elem<std::unordered_map<std::string, int>>(R, "unordered_map", 4); elem<E8>(R, "E8", 5); elem<std::set<int>>(R, "set", 4); elem<Tree>(R, "Tree", 4); elem<V1>(R, "variant", 4);
    shape<std::array<SI, 5>, int>(R, "array<shared int, 5>", 5, [](auto& v, auto& p) { for (auto& x : v) x = p.next(); });
    shape<std::pair<SI, SI>, int>(R, "pair", 2, [](auto& v, auto& p) { v.first = p.next(); v.second = p.next(); });
    shape<std::tuple<SI, int, SI, std::vector<SI>, std::unique_ptr<SI>, SI>, int>(R, "tuple", 6, [](auto& v, auto& p) {
        std::get<0>(v) = p.next(); std::get<2>(v) = p.next(); std::get<3>(v) = { p.next(), p.next() }; std::get<4>(v) = std::make_unique<SI>(p.next()); std::get<5>(v) = p.next(); });
    shape<std::unordered_map<std::string, SI>, int>(R, "unordered_map", 6, [](auto& v, auto& p) { for (int i = 0; i < 6; ++i) v[nth_key(std::size_t(i))] = p.next(); });
    shape<std::vector<std::vector<SI>>, int>(R, "vector<vector>", 6, [](auto& v, auto& p) { v.resize(4); v[0] = { p.next(), p.next() }; v[2] = { p.next(), p.next(), p.next() }; v[3] = { p.next() }; });
    shape<std::map<std::string, std::vector<SI>>, int>(R, "map<vector>", 6, [](auto& v, auto& p) { v["a"] = { p.next(), p.next() }; v["a/0"] = { p.next() }; v["a~10"] = { p.next() }; v[""] = { p.next(), p.next() }; });
    shape<std::vector<std::map<std::string, SI>>, int>(R, "vector<map>", 6, [](auto& v, auto& p) { v.resize(3); v[0]["0"] = p.next(); v[0]["1"] = p.next(); v[1]["0"] = p.next(); v[2]["/"] = p.next(); v[2]["~"] = p.next(); v[2]["~1"] = p.next(); });
    shape<std::vector<std::unique_ptr<std::vector<SI>>>, int>(R, "vector<unique vector>", 5, [](auto& v, auto& p) { for (int i = 0; i < 2; ++i) { v.push_back(std::make_unique<std::vector<SI>>()); v.back()->push_back(p.next()); v.back()->push_back(p.next()); } v.push_back(std::make_unique<std::vector<SI>>()); v.back()->push_back(p.next()); });
    shape<SMix, int>(R, "class mix", th ? 11 : 9, [th](auto& o, auto& p) { o.direct = p.next(); o.opt = p.next(); o.vec = { p.next() }; o.map["k"] = p.next(); o.pr = { p.next(), p.next() }; o.arr[0] = p.next(); o.arr[1] = p.next(); o.up = std::make_unique<SI>(p.next()); if (th) { o.vec.push_back(p.next()); o.map["l"] = p.next(); } });
    shape<std::vector<SMix>, int>(R, "vector of class mix", 8, [](auto& v, auto& p) { v.resize(1); auto& o = v[0]; o.direct = p.next(); o.vec = { p.next() }; o.map[""] = p.next(); o.pr = { p.next(), p.next() }; o.arr[0] = p.next(); o.arr[1] = p.next(); o.up = std::make_unique<SI>(p.next()); });
    shape<SVar, int>(R, "class with variants", 7, [](auto& o, auto& p) { o.v = p.next(); o.w = p.next(); o.list = { p.next(), std::string("s"), p.next() }; o.c = std::vector<SI>{ p.next() }; o.tup.emplace(p.next(), "t", p.next()); });
    shape<SVar, int>(R, "class with variants 2", 6, [](auto& o, auto& p) { o.v = std::string("x"); o.list = { p.next(), p.next() }; o.c = std::map<std::string, SI>{ { "0", p.next() }, { "1", p.next() } }; o.tup.emplace(p.next(), "t", p.next()); });
    shape<std::vector<VC>, int>(R, "vector of container variants", 6, [](auto& v, auto& p) { v.push_back(std::map<std::string, SI>{ { "0", p.next() }, { "b", p.next() } }); v.push_back(std::vector<SI>{ p.next(), p.next() }); v.push_back(std::map<std::string, SI>{ { "k", p.next() }, { "l", p.next() } }); });
    shape<SDer, int>(R, "derived class", 4, [](auto& o, auto& p) { o.b1 = p.next(); o.b2 = p.next(); o.d1 = p.next(); o.d2 = p.next(); });
    shape<std::vector<SDer>, int>(R, "vector of derived class", 6, [](auto& v, auto& p) { v.resize(2); v[0].b1 = p.next(); v[0].d1 = p.next(); v[0].d2 = p.next(); v[1].b1 = p.next(); v[1].b2 = p.next(); v[1].d1 = p.next(); });
    shape<SNames, int>(R, "special member names", th ? 9 : 8, [th](auto& o, auto& p) { o.empty = p.next(); o.slash = p.next(); o.tilde = p.next(); o.zero = { p.next() }; o.quote = p.next(); o.accent = p.next(); o.esc["~0"] = p.next(); o.esc["/"] = p.next(); if (th) o.zero.push_back(p.next()); });
    for (int mask = 0; mask < 32; ++mask) {
        std::size_t k = std::size_t(__builtin_popcount(unsigned(mask)) + (mask >> 2 & 1) + (mask >> 4 & 1));
        shape<SOpt, int>(R, "optionals mask " + std::to_string(mask), k, [mask](auto& o, auto& p) {
            if (mask & 1) o.o1 = p.next(); if (mask & 2) o.o2 = p.next(); if (mask & 4) o.o3 = std::vector<SI>{ p.next(), p.next() }; if (mask & 8) o.o4 = p.next(); if (mask & 16) { o.o5 = std::make_unique<std::vector<SI>>(); (*o.o5)->push_back(p.next()); (*o.o5)->push_back(p.next()); } });
    }
    // dictionaries over every set of four special keys
    R.unit("map keys", [&R] {
        auto& K = key_list();
        std::size_t n = K.size();
        for (std::size_t a = 0; a < n; ++a) for (std::size_t b = a + 1; b < n; ++b) for (std::size_t c = b + 1; c < n; ++c) for (std::size_t d = c + 1; d < n; ++d)
            partitions(4, [&](const std::vector<int>& g) {
                if (R.stop()) return;
                Pool<int> p(g, true);
                std::map<std::string, SI> m; m[K[a]] = p.next(); m[K[b]] = p.next(); m[K[c]] = p.next(); m[K[d]] = p.next();
                check(R, m, "map with keys '" + show(K[a] + "','" + K[b] + "','" + K[c] + "','" + K[d]) + "' partition " + str(g), false);
            });
    });
    // every byte in a key
    R.unit("bytes in keys", [&R] {
        for (int x = 0; x < 128; ++x) for (int form = 0; form < 4; ++form) {
            if (R.stop()) return;
            std::string k = form == 0 ? std::string(1, char(x)) : form == 1 ? "k" + std::string(1, char(x)) : form == 2 ? std::string(1, char(x)) + "0" : std::string(2, char(x)) + "~1";
            if (k == "$ref") continue;
            auto s = std::make_shared<int>(x), q = std::make_shared<int>(x);
            std::map<std::string, std::vector<SI>> m; m[k] = { s, q, s }; m["zz"] = { q, s };
            check(R, m, "key byte " + std::to_string(x) + " form " + std::to_string(form), false);
        }
        for (auto k : { "$ref2", "$re", "ref", "$", "\xc3\xa9", "\xf0\x9f\x98\x80", "%41", "#", "#/0", "-", "00", "01", "1e0", "18446744073709551616", "4294967296", "4294967295", "-1", " 0", "/0", "a~0b", "a~1b", "~01", "~10", "//" }) {
            auto s = std::make_shared<int>(1), q = std::make_shared<int>(1);
            std::map<std::string, std::vector<SI>> m; m[k] = { s, q, s }; m["zz"] = { q, s };
            check(R, m, std::string("key ") + k, false);
            std::map<std::string, std::map<std::string, SI>> m2; m2[k][k] = s; m2[k]["zz"] = q; m2["zzz"][k] = s; m2["zzz"]["zz"] = q;
            check(R, m2, std::string("nested key ") + k, false);
        }
    });
    // keys and member names of every length
    R.unit("long keys", [&R] {
        std::vector<std::size_t> lens; for (std::size_t l = 0; l <= 300; ++l) lens.push_back(l);
        for (std::size_t l : { 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 }) lens.push_back(l);
        for (std::size_t l : lens) for (const char* end : { "", "/", "~", "x" }) {
            if (R.stop()) return;
            std::string k(l, 'k'); k += end; if (l > 70) k[l / 2] = '/';
            auto s = std::make_shared<int>(1), q = std::make_shared<int>(1);
            std::map<std::string, std::vector<SI>> m; m[k] = { s, q, s }; m[k + "y"] = { q, s }; m[k + "yz"] = { std::make_shared<int>(1), q };
            check(R, m, "key of length " + std::to_string(k.size()) + " ending in '" + end + "'", false);
        }
    });
    shape<SLong, int>(R, "long member names", 6, [](auto& o, auto& p) { o.m1 = p.next(); o.m2 = p.next(); o.m3 = { p.next(), p.next() }; o.m4 = p.next(); o.m5["k"] = p.next(); });
    // independent pointee types in one object
    R.unit("several pointee types", [&R] {
        partitions(3, [&](const std::vector<int>& a) { partitions(2, [&](const std::vector<int>& b) { partitions(3, [&](const std::vector<int>& c) {
            if (R.stop()) return;
            Pool<int> i(a, true); Pool<std::string> s(b, true); Pool<long> l(c, true);
            STypes o; o.i1 = i.next(); o.i2 = i.next(); o.i3 = i.next(); o.s1 = s.next(); o.s2 = s.next(); o.l1 = l.next(); o.l2 = l.next(); o.l3 = l.next();
            R.transitions(8);
            check(R, o, "types " + str(a) + "/" + str(b) + "/" + str(c));
        }); }); });
    });
    // shared containers that hold shared objects
    R.unit("shared vector of shared", [&R] {
        partitions(4, [&](const std::vector<int>& a) { int m = 0; for (int x : a) m = std::max(m, x + 1); partitions(std::size_t(m), [&](const std::vector<int>& b) {
            if (R.stop()) return;
            Pool<int> in(b, true);
            std::vector<std::shared_ptr<std::vector<SI>>> out;
            for (int k = 0; k < m; ++k) { auto p = in.next(); out.push_back(std::make_shared<std::vector<SI>>(std::vector<SI>{ p, std::make_shared<int>(k), p })); }
            std::vector<std::shared_ptr<std::vector<SI>>> v;
            for (int x : a) v.push_back(out[std::size_t(x)]);
            R.transitions(8);
            check(R, v, "outer " + str(a) + " inner " + str(b));
            std::vector<std::shared_ptr<std::map<std::string, SI>>> mo, mv;
            Pool<int> in2(b, true);
            for (int k = 0; k < m; ++k) { auto p = in2.next(); mo.push_back(std::make_shared<std::map<std::string, SI>>(std::map<std::string, SI>{ { "x", p }, { "/", std::make_shared<int>(1) }, { "y", p } })); }
            for (int x : a) mv.push_back(mo[std::size_t(x)]);
            check(R, mv, "map outer " + str(a) + " inner " + str(b));
        }); });
    });
    // all DAGs: edges i -> j (i < j) each absent / via next / via left / via named / via next twice
    int N = th ? 5 : 4, kinds = th ? 4 : 5;
    int E = N * (N - 1) / 2;
    int total = 1; for (int i = 0; i < E; ++i) total *= kinds;
    int per = th ? 40000 : 600;
    for (int u = 0; u < total; u += per) R.unit("DAGs of " + std::to_string(N) + " objects #" + std::to_string(u), [&R, u, total, per, N, E, kinds] {
        for (int code = u; code < total && code < u + per; ++code) {
            if (R.stop()) return;
            std::vector<std::shared_ptr<SG>> n;
            for (int i = 0; i < N; ++i) { n.push_back(std::make_shared<SG>()); n.back()->id = code % 2 ? i : 0; }
            int c = code;
            bool ok = true;
            for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) {
                int k = c % kinds; c /= kinds;
                if (k == 1) n[std::size_t(i)]->next.push_back(n[std::size_t(j)]);
                else if (k == 2) { if (n[std::size_t(i)]->left) ok = false; n[std::size_t(i)]->left = n[std::size_t(j)]; }
                else if (k == 3) n[std::size_t(i)]->named["/" + std::to_string(j)] = n[std::size_t(j)];
                else if (k == 4) { n[std::size_t(i)]->next.push_back(n[std::size_t(j)]); n[std::size_t(i)]->next.push_back(n[std::size_t(j)]); }
            }
            if (!ok) continue;
            R.transitions(std::uint64_t(E));
            if (!check(R, n[0], "DAG " + std::to_string(code), false)) return;
            if (code % 7 == 0) { std::vector<std::shared_ptr<SG>> v(n.rbegin(), n.rend()); if (!check(R, v, "DAG " + std::to_string(code) + " all roots, leaves first", false)) return; std::vector<std::shared_ptr<SG>> x(n.begin(), n.end()); if (!check(R, x, "DAG " + std::to_string(code) + " all roots", false)) return; }
        }
    });
    // one object reached through pointers of several types (aliasing: subobjects at the same address)
    R.unit("aliased subobjects", [&R] {
        for (int m = 0; m < 1 << 9; ++m) {
            if (R.stop()) return;
            auto mk = [&](auto& o) {
                std::vector<std::shared_ptr<D1>> d; for (int i = 0; i < 3; ++i) { d.push_back(std::make_shared<D1>()); d.back()->b = i % 2; d.back()->d = 5; }
                for (std::size_t i = 0; i < 3; ++i) {
                    if (m >> (3 * i) & 1) o.d.push_back(d[i]);
                    if (m >> (3 * i) & 2) { o.b.push_back(std::shared_ptr<B1>(d[i])); o.b.push_back(std::shared_ptr<B1>(d[i])); }
                    if (m >> (3 * i) & 4) { o.x.push_back(std::shared_ptr<double>(d[i], &d[i]->b)); o.x.push_back(std::shared_ptr<double>(d[i], &d[i]->d)); o.x.push_back(std::shared_ptr<double>(d[i], &d[i]->b)); }
                }
                if (m & 1) o.d.push_back(d[0]);
            };
            SAlias a; mk(a); check(R, a, "alias " + std::to_string(m));
            SAlias2 b; mk(b); check(R, b, "alias, member first " + std::to_string(m));
        }
    });
    // sets of pointers (address order), combined with references from other places
    for (int u = 0; u < 8; ++u) R.unit("sets of pointers " + std::to_string(u), [&R, u, th] {
        int n = th ? 5 : 4;
        for (int s = 0; s < 1 << n; ++s) for (int t = 0; t < 1 << n; ++t) for (int x = 0; x < 1 << n; ++x) {
            if (R.stop() || (s + t + x) % 8 != u) continue;
            std::vector<SI> p; for (int i = 0; i < n; ++i) p.push_back(std::make_shared<int>(i * 10));
            SSet o;
            for (int i = 0; i < n; ++i) { auto& q = p[std::size_t(i)]; if (s >> i & 1) o.s.insert(q); if (t >> i & 1) o.m[i % 2 ? "/" : "k"].insert(q); if (x >> i & 1) { if (i % 2) o.v.push_back(q); else o.w.push_back(q); } o.w.push_back(q); }
            R.transitions(std::uint64_t(3 * n));
            set_check(R, o, "sets " + std::to_string(s) + "/" + std::to_string(t) + "/" + std::to_string(x));
        }
    });
    // every index up to four digits as target
    for (int u = 0; u < 8; ++u) R.unit("indices " + std::to_string(u), [&R, u, th] {
        int len = th ? 11000 : 1105;
        for (int i = u; i < len - 1; i += 8 * (th && i > 300 ? 37 : 1)) {
            if (R.stop()) return;
            std::vector<SI> v; for (int k = 0; k < len; ++k) v.push_back(std::make_shared<int>(0));
            v.back() = v[std::size_t(i)];
            if (i > 400 && i + 2 < len && i % 100 > 3 && i % 100 < 97) { v.resize(std::size_t(i + 2)); v.back() = v[std::size_t(i)]; }
            check(R, v, "target index " + std::to_string(i), false);
        }
    });
    // large sets, arrays and maps on the path
    for (int n : { 99, 127, 128, 130, 255, 256, 257, 300, 1001 }) R.unit("large containers " + std::to_string(n), [&R, n] {
        std::vector<SI> p; for (int i = 0; i < n; ++i) p.push_back(std::make_shared<int>(i));
        SSet o; o.s.insert(p.begin(), p.end()); o.w = { p.back(), p[std::size_t(n) / 2], *o.s.rbegin(), *o.s.begin() };
        set_check(R, o, "set of " + std::to_string(n));
        std::pair<std::map<std::string, std::vector<SI>>, std::vector<SI>> m; for (int i = 0; i < n; ++i) m.first["k" + std::to_string(i)] = { p[std::size_t(i)] };
        m.second = { p.back(), p[0], p[std::size_t(n) / 2], p.back() };
        check(R, m, "map of " + std::to_string(n), false);
        if (n == 300) { std::pair<std::array<SI, 300>, std::vector<SI>> a; for (int i = 0; i < n; ++i) a.first[std::size_t(i)] = p[std::size_t(i)]; a.second = { p[299], p[256], p[255], p[0], p[128] }; check(R, a, "array of 300", false); }
    });
    // indices of five and six digits
    for (int i : { 9999, 10000, 10001, 12345, 32767, 32768, 65535, 65536, 99999, 100000, 100001 }) R.unit("index " + std::to_string(i), [&R, i] {
        auto keep = std::make_shared<int>(0);
        std::vector<std::vector<SI>> v(1); v[0].reserve(std::size_t(i) + 2);
        for (int k = 0; k < i; ++k) v[0].push_back(std::make_shared<int>(1));
        v[0].push_back(keep); v[0].push_back(keep); v.push_back({ v[0][std::size_t(i) - 1], keep });
        check(R, v, "target index " + std::to_string(i), false);
    });
    // deep paths
    R.unit("deep paths", [&R] {
        auto leaf = std::make_shared<SG>(); leaf->id = 7;
        for (int depth = 1; depth <= 120; ++depth) {
            if (R.stop()) return;
            std::shared_ptr<SG> p = leaf, r;
            for (int i = 0; i < depth; ++i) { auto q = std::make_shared<SG>(); q->id = i; if (i % 3 == 0) q->next = { std::make_shared<SG>(), p }; else if (i % 3 == 1) q->left = p; else q->named["k/" + std::to_string(i)] = p; p = q; }
            std::vector<std::shared_ptr<SG>> v{ p, leaf, p->next.empty() ? leaf : p->next.back(), p };
            check(R, v, "depth " + std::to_string(depth), false);
        }
    });
    // a pointer directly to a pointer: the pointee is written as another shared object at the same place
    partitions(3, [&](const std::vector<int>& a) { int m = 0; for (int x : a) m = std::max(m, x + 1); partitions(std::size_t(m), [&](const std::vector<int>& b) {
        R.unit("shared pointer to shared pointer, outer " + str(a) + " inner " + str(b), [&R, a, b, m] {
            Pool<int> in(b, false);
            std::vector<std::shared_ptr<SI>> out, v;
            for (int k = 0; k < m; ++k) out.push_back(std::make_shared<SI>(in.next()));
            for (int x : a) v.push_back(out[std::size_t(x)]);
            check(R, v, "pointer to pointer outer " + str(a) + " inner " + str(b), false);
        });
    }); });
}
